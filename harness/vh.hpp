// Common driver of the witness harnesses.  A harness runs the real code of /repo
// against an independent oracle; it never decides a property that the verifier
// decides, it looks for the input that shows a failed obligation on the real code.
#pragma once
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include <sys/resource.h>
#include <unistd.h>

namespace vh {

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t x) : s(x * 0x9E3779B97F4A7C15ull + 0x1234567) {}
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int range(int a, int b) { return a + (int) below((uint64_t) (b - a + 1)); }
    bool chance(int pct) { return (int) below(100) < pct; }
    template<class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};

inline std::string esc(const std::string &s) {
    std::string o;
    char b[8];
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += (char) c; }
        else if (c == '\n') o += "\\n";
        else if (c == '\t') o += "\\t";
        else if (c < 32 || c >= 127) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += (char) c;
    }
    return o;
}

struct State {
    unsigned long seed = 1;
    bool thorough = false;
    const char *out = nullptr;
    long only = -1;
    long evaluations = 0;
    std::unordered_set<size_t> distinct;
    std::vector<std::string> samples;
    std::string rule;
    std::string current = "start";
    double budget = 40;
    bool show = false;
};
inline State &st() { static State s; return s; }

inline void report(const std::string &what, const std::string &expected, const std::string &got, const std::string &kind) {
    State &s = st();
    FILE *f = s.out ? fopen(s.out, "w") : stdout;
    if (!f) f = stdout;
    fprintf(f, "{\"witness\": true, \"kind\": \"%s\", \"case\": %ld, \"input\": \"%s\", \"what\": \"%s\", \"expected\": \"%s\", \"got\": \"%s\", \"evaluations\": %ld, \"distinct\": %zu}\n",
        kind.c_str(), s.evaluations, esc(s.current).c_str(), esc(what).c_str(), esc(expected).c_str(), esc(got).c_str(), s.evaluations, s.distinct.size());
    if (f != stdout) fclose(f);
    fflush(stdout);
}

// Announces a case; `input` describes it completely.  Returns false when the case is not to be run.
inline bool begin(const std::string &input, bool nontrivial = true) {
    State &s = st();
    ++s.evaluations;
    s.current = input;
    if (nontrivial) {
        if (s.distinct.insert(std::hash<std::string>()(input)).second && (s.samples.size() < 3 || (s.evaluations % 977 == 0 && s.samples.size() < 8)))
            s.samples.push_back(input.substr(0, 600));
    }
    alarm(s.thorough ? 120 : 60);
    return true;
}

[[noreturn]] inline void fail(const std::string &what, const std::string &expected, const std::string &got) {
    report(what, expected, got, "mismatch");
    _exit(1);
}

inline void check(bool ok, const std::string &what, const std::string &expected = "", const std::string &got = "") {
    if (!ok) fail(what, expected, got);
}
template<class T> std::string str(const T &t) { std::ostringstream o; o.precision(17); o << t; return o.str(); }
inline void eq(const std::string &what, const std::string &expected, const std::string &got) { if (expected != got) fail(what, expected, got); }
template<class T> void same(const std::string &what, const T &expected, const T &got) { if (!(expected == got)) fail(what, str(expected), str(got)); }

inline double cpu() { return (double) clock() / CLOCKS_PER_SEC; }
inline bool more() { return cpu() < st().budget; }
inline int scale(int quick, int thorough) { return st().thorough ? thorough : quick; }

inline void on_signal(int sig) {
    const char *k = sig == SIGALRM ? "no answer within the time limit of one case" : sig == SIGSEGV ? "segmentation fault" : sig == SIGFPE ? "arithmetic fault" : sig == SIGABRT ? "abort" : "signal";
    signal(SIGABRT, SIG_DFL);
    report(k, "the call returns", k, "crash");
    _exit(1);
}

inline int run(int argc, char **argv, const std::string &rule, std::function<void(Rng &)> body) {
    State &s = st();
    if (argc > 1) s.seed = strtoul(argv[1], nullptr, 10);
    if (argc > 2) s.thorough = !strcmp(argv[2], "thorough");
    if (argc > 3) s.out = argv[3];
    s.budget = s.thorough ? 240 : 40;
    s.rule = rule;
    for (int sig : {SIGSEGV, SIGFPE, SIGABRT, SIGBUS, SIGILL, SIGALRM}) signal(sig, on_signal);
    struct rlimit rl;
    rl.rlim_cur = rl.rlim_max = 6ul << 30;
    setrlimit(RLIMIT_AS, &rl);
    rl.rlim_cur = rl.rlim_max = 0;
    setrlimit(RLIMIT_CORE, &rl);
    // the code under test writes diagnostics to cerr
    std::cerr.setstate(std::ios_base::failbit);
    Rng r(s.seed);
    try {
        body(r);
    } catch (const std::exception &e) {
        report(std::string("exception not allowed here: ") + e.what(), "no exception", e.what(), "crash");
        _exit(1);
    } catch (...) {
        report("exception not allowed here", "no exception", "?", "crash");
        _exit(1);
    }
    alarm(0);
    FILE *f = s.out ? fopen(s.out, "w") : stdout;
    fprintf(f, "{\"witness\": false, \"evaluations\": %ld, \"distinct\": %zu, \"rule\": \"%s\", \"samples\": [", s.evaluations, s.distinct.size(), esc(s.rule).c_str());
    for (size_t i = 0; i < s.samples.size(); ++i)
        fprintf(f, "%s\"%s\"", i ? ", " : "", esc(s.samples[i]).c_str());
    fprintf(f, "]}\n");
    if (f != stdout) fclose(f);
    fflush(stdout);
    _exit(0);
}

template<class V> std::string join(const V &v, const std::string &sep = " ") {
    std::ostringstream o;
    bool first = true;
    for (const auto &x : v) { if (!first) o << sep; o << x; first = false; }
    return o.str();
}

}
