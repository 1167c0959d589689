// Workload and monitor support shared by all harnesses.
//
// A harness defines cases: case i is generated from (seed, i) alone, so any violation
// replays with the same seed and --only i. Monitors report through Run::violation and the
// near/le/... helpers; each evaluated oracle is counted under its name.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <algorithm>
#include <numeric>
#include <limits>
#include <unistd.h>
#include <fcntl.h>

namespace vh {

using std::string;
using std::vector;

struct Rng {
    uint64_t s;
    static uint64_t mix(uint64_t z) {
        z += 0x9E3779B97F4A7C15ull;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    explicit Rng(uint64_t a = 0, uint64_t b = 0) : s(mix(mix(a) ^ (b * 0xD1B54A32D192ED03ull + 77))) {}
    uint64_t u64() { s += 0x9E3779B97F4A7C15ull; return mix(s); }
    // [0,1)
    double u() { return double(u64() >> 11) * 0x1.0p-53; }
    double uni(double a, double b) { return a + (b - a) * u(); }
    double logu(double a, double b) { return a * std::exp(std::log(b / a) * u()); }
    // integer in [a,b]
    long i(long a, long b) { return a + long(u64() % uint64_t(b - a + 1)); }
    size_t idx(size_t n) { return size_t(u64() % n); }
    bool p(double prob) { return u() < prob; }
    double gauss() { return std::sqrt(-2 * std::log(1 - u())) * std::cos(6.283185307179586 * u()); }
    template <class T> const T& pick(const vector<T>& v) { return v[idx(v.size())]; }
    template <class T> T pick(std::initializer_list<T> v) { return *(v.begin() + idx(v.size())); }
    template <class T> void shuffle(vector<T>& v) {
        for (size_t n = v.size(); n > 1; n--) std::swap(v[n - 1], v[idx(n)]);
    }
};

inline string jstr(const string& s) {
    string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}

template <class... A> string cat(const A&... a) {
    std::ostringstream o;
    o.precision(17);
    (o << ... << a);
    return o.str();
}
template <class V> string vec(const V& v) {
    std::ostringstream o;
    o.precision(17);
    o << "[";
    for (size_t i = 0; i < v.size(); i++) o << (i ? "," : "") << v[i];
    o << "]";
    return o.str();
}

struct Violation { string key, detail; size_t icase; };

struct Run {
    string prop;
    uint64_t seed = 1;
    bool thorough = false;
    size_t shard = 0, nshards = 1, ncases = 0, start = 0;
    long only = -1;
    string out, progress;
    bool verbose = false;

    size_t icase = 0;
    string desc;
    std::map<string, uint64_t> counts;       // oracle evaluations / events by name
    std::map<string, uint64_t> viol_counts;
    std::map<string, double> maxima;         // largest value seen of a monitored ratio
    vector<Violation> violations;
    std::set<uint64_t> states;               // distinct non-trivial states observed
    vector<string> samples;
    uint64_t evaluations = 0;
    int progfd = -1;

    void violation(const string& key, const string& detail) {
        if (viol_counts[key]++ < 3) {
            violations.push_back({key, desc + " :: " + detail, icase});
        }
        if (verbose) fprintf(stderr, "VIOL case %zu %s: %s :: %s\n", icase, key.c_str(), desc.c_str(), detail.c_str());
    }
    void count(const string& name, uint64_t n = 1) { counts[name] += n; }
    void state(uint64_t h) { states.insert(h); }
    void state(const string& s) { states.insert(std::hash<string>()(s)); }
    void sample(const string& s) { if (samples.size() < 3) samples.push_back(s); }
    void maxi(const string& k, double v) { auto it = maxima.find(k); if (it == maxima.end() || v > it->second) maxima[k] = v; }

    // the monitored equality a == b within rtol*scale + atol (scale >= |a|,|b|)
    bool near(const string& key, double a, double b, double rtol, double atol = 0,
              const string& detail = "", double scale = 0) {
        if (std::isnan(a) && std::isnan(b)) { count("both-nan"); return true; }
        count(key.substr(0, key.find('@')));
        evaluations++;
        double m = std::max({std::fabs(a), std::fabs(b), scale});
        double tol = rtol * m + atol;
        double d = std::fabs(a - b);
        if (d <= tol || a == b) {
            if (verbose && tol > 0) maxi(key, d / tol);
            return true;
        }
        violation(key, cat("got ", a, " want ", b, " diff ", d, " tol ", tol, " ", detail));
        return false;
    }
    bool check(const string& key, bool ok, const string& detail = "") {
        count(key.substr(0, key.find('@')));
        evaluations++;
        if (!ok) violation(key, detail);
        return ok;
    }
    void begin(size_t i, const string& d) {
        icase = i;
        desc = d;
        writeProgress();
    }
    void describe(const string& d) { desc = d; writeProgress(); }
    void writeProgress() {
        if (progfd >= 0) {
            string s = cat(icase, "\n", desc.substr(0, 4000), "\n");
            if (pwrite(progfd, s.data(), s.size(), 0) >= 0 && ftruncate(progfd, s.size()) != 0) {}
        }
    }
    void write(bool complete) {
        std::ostringstream o;
        o.precision(17);
        o << "{\"complete\":" << (complete ? "true" : "false") << ",\"evaluations\":" << evaluations
          << ",\"counts\":{";
        bool f = true;
        for (auto& [k, v] : counts) { o << (f ? "" : ",") << jstr(k) << ":" << v; f = false; }
        o << "},\"maxima\":{";
        f = true;
        for (auto& [k, v] : maxima) { o << (f ? "" : ",") << jstr(k) << ":" << jstr(cat(v)); f = false; }
        o << "},\"viol_counts\":{";
        f = true;
        for (auto& [k, v] : viol_counts) { o << (f ? "" : ",") << jstr(k) << ":" << v; f = false; }
        o << "},\"violations\":[";
        f = true;
        for (auto& v : violations) {
            o << (f ? "" : ",") << "{\"key\":" << jstr(v.key) << ",\"detail\":" << jstr(v.detail.substr(0, 3000))
              << ",\"case\":" << v.icase << "}";
            f = false;
        }
        o << "],\"samples\":[";
        f = true;
        for (auto& v : samples) { o << (f ? "" : ",") << jstr(v); f = false; }
        o << "],\"states\":[";
        f = true;
        for (auto v : states) { o << (f ? "" : ",") << "\"" << std::hex << v << std::dec << "\""; f = false; }
        o << "]}\n";
        string tmp = out + ".tmp";
        FILE* fp = fopen(tmp.c_str(), "w");
        if (!fp) { perror("out"); exit(3); }
        string s = o.str();
        if (fwrite(s.data(), 1, s.size(), fp) != s.size()) exit(3);
        fclose(fp);
        rename(tmp.c_str(), out.c_str());
    }
};

inline uint64_t hashv(const vector<double>& v, uint64_t h = 7) {
    for (double d : v) { uint64_t b; memcpy(&b, &d, 8); h = Rng::mix(h ^ b); }
    return h;
}

inline Run parse(int argc, char** argv) {
    Run r;
    for (int i = 1; i + 1 < argc; i += 2) {
        string a = argv[i], v = argv[i + 1];
        if (a == "--prop") r.prop = v;
        else if (a == "--seed") r.seed = strtoull(v.c_str(), 0, 10);
        else if (a == "--tier") r.thorough = v == "thorough";
        else if (a == "--shard") r.shard = std::stoul(v);
        else if (a == "--nshards") r.nshards = std::stoul(v);
        else if (a == "--cases") r.ncases = std::stoul(v);
        else if (a == "--start") r.start = std::stoul(v);
        else if (a == "--only") r.only = std::stol(v);
        else if (a == "--out") r.out = v;
        else if (a == "--progress") r.progress = v;
        else if (a == "--verbose") r.verbose = v == "1";
    }
    if (!r.progress.empty()) r.progfd = open(r.progress.c_str(), O_CREAT | O_RDWR | O_TRUNC, 0644);
    if (r.only >= 0) { r.start = r.only; r.ncases = r.only + 1; r.nshards = 1; r.shard = r.only; }
    return r;
}

// Runs fn for every case of this shard. An exception escaping fn is a violation: monitors
// catch the exceptions the property permits themselves.
inline int drive(Run& r, const std::function<void(Run&, size_t, Rng&)>& fn) {
    for (size_t i = r.shard; i < r.ncases; i += r.nshards) {
        if (i < r.start) continue;
        Rng g(r.seed, i);
        r.begin(i, "case");
        try {
            fn(r, i, g);
        } catch (const std::exception& e) {
            string what = e.what();
            // keep the key stable: only the reporting procedure
            size_t p = what.find("thrown by ");
            string who = p == string::npos ? "exception" : what.substr(p + 10, what.find_first_of(":\n", p + 10) - p - 10);
            string d = r.desc.substr(0, r.desc.find(' '));
            r.violation("unexpected-exception@" + d + "@" + who, what.substr(0, 1500));
        }
        r.count("cases");
        if ((i / r.nshards) % 64 == 0 && !r.out.empty()) r.write(false);
    }
    if (!r.out.empty()) r.write(true);
    if (r.verbose) {
        for (auto& [k, v] : r.counts) fprintf(stderr, "%-60s %llu\n", k.c_str(), (unsigned long long)v);
        for (auto& [k, v] : r.maxima) fprintf(stderr, "max %-60s %.3g\n", k.c_str(), v);
        for (auto& [k, v] : r.viol_counts) fprintf(stderr, "VIOLS %-60s %llu\n", k.c_str(), (unsigned long long)v);
        fprintf(stderr, "states %zu evaluations %llu\n", r.states.size(), (unsigned long long)r.evaluations);
    }
    return 0;
}

} // namespace vh
