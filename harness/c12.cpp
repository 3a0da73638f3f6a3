// C12: loading a grammar: sections as written, references resolved, faulty texts refused
#include "addr.hpp"
#include <cmath>
#include <fstream>
#include <iterator>

namespace {
bool ws(unsigned char c) { return c == ' ' || (c >= 9 && c <= 13); }
std::string trim(const std::string &s) {
    size_t a = 0, b = s.size();
    while (a < b && ws(s[a])) ++a;
    while (b > a && ws(s[b - 1])) --b;
    return s.substr(a, b - a);
}
bool wordch(unsigned char c) { return c == '_' || (c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || c >= 0x80; }
// references of a well-formed reference line; false when the line is not one
bool refs_of(const std::string &l, std::vector<std::string> &out) {
    size_t i = 0;
    for (;;) {
        while (i < l.size() && ws(l[i])) ++i;
        if (i == l.size()) return !out.empty();
        if (l[i] != '@') return false;
        size_t b = ++i;
        while (i < l.size() && wordch(l[i])) ++i;
        if (i == b) return false;
        out.push_back(l.substr(b, i - b));
    }
}
struct ORuleV { ad::Ints in, out; float score; };
bool rule_of(const std::string &l, ORuleV &u) {
    std::vector<std::string> w;
    size_t i = 0;
    for (;;) {
        while (i < l.size() && ws(l[i])) ++i;
        if (i == l.size()) break;
        size_t b = i;
        while (i < l.size() && !ws(l[i])) ++i;
        w.push_back(l.substr(b, i - b));
    }
    u.score = 0;
    int part = 0;
    for (auto &x : w) {
        if (x == "->") ++part;
        else if (part == 0) { auto f = ad::in_table().find(x); u.in.push_back(f == ad::in_table().end() ? 99 : f->second); }
        else if (part == 1) { auto f = ad::out_table().find(x); u.out.push_back(f == ad::out_table().end() ? 99 : f->second); }
        else if (part == 2) u.score = static_cast<float>(atof(x.c_str()));
    }
    return u.in.size() == u.out.size() && u.score > 0;
}
struct Sec { std::string name; bool meta; std::vector<std::vector<std::string> > alts; std::vector<ORuleV> rules; };
struct Loaded {
    std::string refused;   // why, empty when the text loads
    std::vector<Sec> secs;
    std::set<std::string> unused;
    const Sec *find(const std::string &n) const { for (auto &s : secs) if (s.name == n) return &s; return nullptr; }
};
Loaded load(std::string t) {
    Loaded o;
    if (t.compare(0, 3, "\xEF\xBB\xBF") == 0) t = t.substr(3);
    std::vector<std::string> lines;
    size_t b = 0;
    while (b < t.size()) { size_t e = t.find('\n', b); if (e == std::string::npos) e = t.size(); lines.push_back(t.substr(b, e - b)); b = e + 1; }
    bool any = false;
    Sec cur;
    int kind = -1;
    auto close = [&]() { if (kind >= 0) o.secs.push_back(cur); kind = -1; cur = Sec(); };
    for (auto &l : lines) {
        std::string x = trim(l);
        if (x.empty() || x[0] == '#') continue;
        if (x.size() > 2 && x[0] == '[' && x.back() == ']') {
            close();
            cur.name = x.substr(1, x.size() - 2);
            any = true;
            if (o.find(cur.name)) { o.refused = "repeated section"; return o; }
            continue;
        }
        if (!any) { o.refused = "line before the first section"; return o; }
        if (l.find('@') != std::string::npos) {
            if (kind == 1) { o.refused = "mixed section"; return o; }
            std::vector<std::string> r;
            if (!refs_of(l, r)) { o.refused = "malformed reference line"; return o; }
            kind = 0; cur.meta = true; cur.alts.push_back(r);
        } else {
            if (kind == 0) { o.refused = "mixed section"; return o; }
            ORuleV u;
            if (!rule_of(l, u)) { o.refused = "invalid rule"; return o; }
            kind = 1; cur.meta = false; cur.rules.push_back(u);
        }
    }
    close();
    std::set<std::string> refd;
    for (auto &s : o.secs) for (auto &a : s.alts) for (auto &r : a) { refd.insert(r); if (!o.find(r)) { o.refused = "missing section"; return o; } }
    if (!o.find("ADDRESS")) { o.refused = "no start section"; return o; }
    for (auto &s : o.secs) if (s.name != "ADDRESS" && !refd.count(s.name)) o.unused.insert(s.name);
    return o;
}
struct Seen : Grammar {
    explicit Seen(const char *s) : Grammar(s) {}
    explicit Seen(std::istream &s) : Grammar(s) {}
    const std::vector<MetaSection> &metas() const { return metas_; }
    const std::vector<RuleSection> &rules() const { return rules_; }
    unsigned long index(const std::string &n) const { auto f = sectionIndex_.find(n); return f == sectionIndex_.end() ? 9999999 : f->second; }
    size_t names() const { return sectionIndex_.size(); }
};
std::string alt(const std::vector<std::string> &r) { std::string s; for (auto &x : r) s += "@" + x + " "; return s; }
void compare(const Loaded &o, const Seen &g) {
    size_t nm = 0, nr = 0;
    for (auto &s : o.secs) {
        if (s.meta) {
            vh::check(nm < g.metas().size() && g.metas()[nm].name() == s.name, "reference sections in order", s.name, nm < g.metas().size() ? g.metas()[nm].name() : "none");
            const MetaSection &m = g.metas()[nm];
            vh::same("position of a section", nm, (size_t) g.index(s.name));
            vh::same("lines of a section", s.alts.size(), (size_t) m.size());
            for (size_t i = 0; i < s.alts.size(); ++i) {
                MetaRule ru = m.rule(i);
                std::vector<std::string> got;
                for (auto &p : ru.refs()) {
                    got.push_back(p.name());
                    const Sec *t = o.find(p.name());
                    if (t->meta) {
                        vh::check(p.mptr() && !p.rptr() && p.mptr()->name() == t->name && p.mptr() == &g.metas()[g.index(t->name)], "reference to " + p.name(), "the section of that name", "another");
                    } else {
                        vh::check(!p.mptr() && p.rptr() && p.rptr()->name() == t->name && p.rptr() == &g.rules()[g.index(t->name)], "reference to " + p.name(), "the section of that name", "another");
                    }
                }
                vh::eq("references of a line", alt(s.alts[i]), alt(got));
            }
            ++nm;
        } else {
            vh::check(nr < g.rules().size() && g.rules()[nr].name() == s.name, "rule sections in order", s.name, nr < g.rules().size() ? g.rules()[nr].name() : "none");
            const RuleSection &m = g.rules()[nr];
            vh::same("position of a section", nr, (size_t) g.index(s.name));
            vh::same("lines of a section", s.rules.size(), (size_t) m.size());
            for (size_t i = 0; i < s.rules.size(); ++i) {
                Rule u = m.rule(i);
                ad::Ints a, b;
                for (auto e : u.in()) a.push_back((int) e);
                for (auto e : u.out()) b.push_back((int) e);
                vh::eq("rule", ad::rule_str(s.rules[i].in, s.rules[i].out, s.rules[i].score), ad::rule_str(a, b, u.score()));
            }
            ++nr;
        }
    }
    vh::same("reference sections", nm, g.metas().size());
    vh::same("rule sections", nr, g.rules().size());
    vh::same("section names", o.secs.size(), g.names());
    vh::same("status", o.unused.empty() ? 0 : 1, (int) g.status());
    vh::check(o.unused.empty() == g.issues().empty(), "issues are reported exactly when a section is unused", o.unused.empty() ? "none" : "some", g.issues());
    for (auto &n : o.unused) vh::check(g.issues().find("'" + n + "'") != std::string::npos, "the unused section is named", n, g.issues());
}
void one(const std::string &t, int how) {
    Loaded o = load(t);
    vh::begin("grammar text '" + t + "'" + (how ? " (stream)" : ""), o.refused.empty());
    std::string err;
    bool threw = false;
    try {
        if (how) { std::istringstream is(t); Seen g(is); if (o.refused.empty()) compare(o, g); }
        else { Seen g(t.c_str()); if (o.refused.empty()) compare(o, g); }
    } catch (const std::runtime_error &e) { threw = true; err = e.what(); }
    if (threw && o.refused.empty()) vh::fail("the text loads", "a grammar", err);
    if (!threw && !o.refused.empty()) vh::fail("the text is refused", o.refused, "it loads");
}
}

int main(int c, char **v) {
    return vh::run(c, v, "random grammar texts (0-8 sections of either kind, comments, blanks, marks, carriage returns, no final newline) with 0-2 random faults, and the sample grammars of the repository; non-trivial when the text loads",
        [](vh::Rng &r) {
        std::vector<std::string> in, out;
        for (auto &e : ad::in_table()) in.push_back(e.first);
        for (auto &e : ad::out_table()) out.push_back(e.first);
        const char *data = getenv("REPO_DIR");
        std::string root = std::string(data ? data : "/repo") + "/data/sample/";
        for (const char *n : {"usa", "canada", "germany", "france", "austria", "spain", "italy", "netherlands", "ireland", "norway"}) {
            std::ifstream f(root + n + ".gmr");
            if (!f) continue;
            std::string t((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
            one(t, 0);
        }
        for (int k = 0; k < vh::scale(6000, 120000) && vh::more(); ++k) {
            std::vector<std::string> names = {"ADDRESS"};
            std::vector<std::string> pool = {"A", "B", "street", "a_b", "X1", "macro", "house_num", "\xC3\xA9tage", "\xE6\x9D\xB1", "_", "9", "ADDRESS2", "B2"};
            int n = r.range(0, 7);
            for (int i = 0; i < n; ++i) names.push_back(r.pick(pool));
            bool clean = r.chance(60);
            if (clean) { std::vector<std::string> u; for (auto &x : names) if (std::find(u.begin(), u.end(), x) == u.end()) u.push_back(x); names = u; }
            if (r.chance(20)) std::swap(names[0], names[r.below(names.size())]);
            if (!clean && r.chance(10)) names[r.below(names.size())] = r.pick(std::vector<std::string>{"A B", "]", "[", " x ", "@A", "a]"});
            std::string nl = r.chance(10) ? "\r\n" : "\n";
            std::vector<std::string> ls;
            auto noise = [&]() {
                while (r.chance(15)) ls.push_back(r.pick(std::vector<std::string>{"", "# note", "   ", "\t#[A]", "#@x", " # WORD -> STREET -> 0.5", "\t"}));
            };
            std::vector<std::string> all = names;
            for (auto &nm : names) {
                noise();
                ls.push_back((r.chance(10) ? "  [" : "[") + nm + (r.chance(10) ? "] " : "]"));
                noise();
                if (nm == names[0] ? r.chance(90) : r.chance(40)) {
                    int m = r.range(clean ? 1 : 0, 3);
                    for (int i = 0; i < m; ++i) {
                        std::string l = r.chance(10) ? "  " : "";
                        int q = r.range(1, 4);
                        for (int j = 0; j < q; ++j) l += "@" + (nm == names[0] && i + j < (int) all.size() ? all[(i * 3 + j) % all.size()] : r.pick(all)) + (r.chance(5) ? "" : r.chance(10) ? "\t " : " ");
                        ls.push_back(l);
                        noise();
                    }
                    if (nm == names[0] && m) for (size_t j = 1; j < all.size(); ++j) if (r.chance(90)) ls.back() = "@" + all[j] + " " + (ls.back().find('@') == std::string::npos ? "" : ls.back());
                } else {
                    int m = r.range(clean ? 1 : 0, 3);
                    for (int i = 0; i < m; ++i) {
                        int q = r.range(0, 3);
                        std::string l;
                        for (int j = 0; j < q; ++j) l += r.pick(in) + " ";
                        l += "->";
                        for (int j = 0; j < q; ++j) l += " " + r.pick(out);
                        l += " -> " + r.pick(std::vector<std::string>{"0.5", "1", "0.25", "0.9", ".1"}) + (r.chance(5) ? " " : "");
                        ls.push_back(l);
                        noise();
                    }
                }
            }
            int faults = clean ? r.chance(25) : r.range(0, 2);
            while (faults-- > 0) {
                size_t at = r.below(ls.size() + 1);
                std::string bad = r.pick(std::vector<std::string>{"WORD -> STREET -> 0.5", "@A", "@nowhere", "[A]", "[ADDRESS]", "[]", "[A] x", "WORD -> -> 0.5", "WORD -> STREET -> 0", "WORD -> STREET -> nan", "WORD -> STREET", "junk",
                    "@A -> STREET -> 0.5", "@A, @B", "A@B", "@", "@A @", "WORD -> STREET -> -1", "[B]", "-> -> 1", "@ADDRESS", "[street"});
                if (r.chance(40) && at < ls.size()) ls[at] = bad; else if (r.chance(80)) ls.insert(ls.begin() + at, bad); else if (at < ls.size()) ls.erase(ls.begin() + at);
            }
            std::string t = r.chance(10) ? "\xEF\xBB\xBF" : "";
            for (size_t i = 0; i < ls.size(); ++i) t += ls[i] + (i + 1 < ls.size() || r.chance(80) ? nl : "");
            one(t, r.chance(20));
        }
    });
}
