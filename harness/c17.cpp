// C17: histories of requests to the query cache
#include "vh.hpp"
#include "md5.h"
#include "address_standardizer.h"
#include "pg.h"
// what the cache loads: an object that remembers its text; bad texts do not load
struct Obj { std::string text; bool grammar; };
static std::set<Obj *> live;
static std::string trouble;
static long loads;
static void *load(char *t, char **err, bool grammar) {
    if (t[0] == '!') { *err = strdup("it does not load"); return nullptr; }
    Obj *o = new Obj{t, grammar};
    live.insert(o); ++loads;
    *err = nullptr;
    return o;
}
static void give_up(void *p, bool grammar) {
    Obj *o = (Obj *) p;
    if (!p) return;
    if (!live.count(o)) { trouble = "an object is given up twice"; return; }
    if (o->grammar != grammar) trouble = "an object of the other kind is given up";
    live.erase(o); delete o;
}
extern "C" {
void *getLexiconPtr(char *t, char **e) { return load(t, e, false); }
void *getGrammarPtr(char *t, char **e) { return load(t, e, true); }
void freeLexiconPtr(void *p) { give_up(p, false); }
void freeGrammarPtr(void *p) { give_up(p, true); }
char *getMd5(char *t) { return strdup(md5(t).c_str()); }
STANDARDIZER *GetStdUsingFCInfo(void *fcinfo, char *lexicon, char *grammar);
}
struct Req { std::string l, g; STANDARDIZER *std; };
static void request(void *fcinfo, void *a) {
    Req *q = (Req *) a;
    char *l = strdup(q->l.c_str()), *g = strdup(q->g.c_str());
    q->std = GetStdUsingFCInfo(fcinfo, l, g);
    free(l); free(g);
}
int main(int argc, char **argv) {
    return vh::run(argc, argv, "random histories of requests in one or two queries; non-trivial when some pair of texts is asked for again after others, or does not load",
        [](vh::Rng &r) {
        for (int k = 0; k < vh::scale(3000, 30000) && vh::more(); ++k) {
            pgh_start();
            trouble.clear();
            int nq = r.chance(25) ? 2 : 1, texts = r.range(1, 4), len = r.range(1, 14);
            struct Q { void *p; std::vector<std::pair<std::string, std::string> > kept; size_t next; };
            std::vector<Q> qs;
            for (int i = 0; i < nq; ++i) qs.push_back(Q{pgh_portal(), {}, 0});
            std::string what;
            bool again = false;
            std::vector<std::pair<int, std::pair<std::string, std::string> > > hist;
            for (int i = 0; i < len; ++i) {
                std::string l = std::string(r.chance(6) ? "!" : "") + "lex" + std::to_string(r.below(texts)), g = std::string(r.chance(6) ? "!" : "") + (r.chance(10) ? "" : "gram" + std::to_string(r.below(texts)));
                if (r.chance(10)) std::swap(l, g);
                int q = r.below(nq);
                for (auto &h : hist) if (h.second.first == l && h.second.second == g) again = true;
                if (l[0] == '!' || g[0] == '!') again = true;
                hist.push_back({q, {l, g}});
                what += " " + std::to_string(q) + ":(" + l + "," + g + ")";
            }
            vh::begin("requests" + what, again);
            for (auto &h : hist) {
                Q &q = qs[h.first];
                Req rq{h.second.first, h.second.second, nullptr};
                bool ok = rq.l[0] != '!' && rq.g[0] != '!', hit = false;
                for (auto &x : q.kept) if (x == h.second) hit = true;
                long before = loads;
                size_t alive = live.size();
                int rc = pgh_call(q.p, request, &rq);
                std::string at = "request (" + rq.l + "," + rq.g + ")";
                vh::eq(at, ok ? "an object" : "an error", rc ? (rq.std ? "an object" : "nothing") : "an error");
                if (!ok) { vh::eq(at + ", objects alive after the error", std::to_string(alive), std::to_string(live.size())); continue; }
                if (!rc || !rq.std) continue;
                Obj *l = (Obj *) rq.std->lex_obj, *g = (Obj *) rq.std->gmr_obj;
                bool there = live.count(l) && live.count(g);
                vh::check(there, at, "an object that was not given up", "one that was");
                if (there) vh::eq(at, rq.l + "," + rq.g, l->text + "," + g->text);
                vh::eq(at + ", objects loaded", hit ? "0" : "2", std::to_string(loads - before));
                if (!hit) { if (q.kept.size() < 4) q.kept.push_back(h.second); else { q.kept[q.next] = h.second; q.next = (q.next + 1) % 4; } }
                size_t n = 0;
                for (auto &x : qs) n += x.kept.size();
                vh::eq(at + ", objects kept", std::to_string(2 * n), std::to_string(live.size()));
                vh::eq(at + ", entries in the table", std::to_string(n), std::to_string(pgh_entries()));
            }
            for (auto &q : qs) pgh_end(q.p);
            vh::eq("objects alive after the queries", "0", std::to_string(live.size()));
            vh::eq("entries after the queries", "0", std::to_string(pgh_entries()));
            pgh_stop();
            vh::eq("server memory after the queries", "0 bytes", std::to_string(pgh_bytes()) + " bytes");
            vh::eq("", "", trouble);
            vh::eq("", "", pgh_trouble());
            for (auto o : live) delete o;
            live.clear();
        }
    });
}
