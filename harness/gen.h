// Random mechanisms written as YAML text together with an independent evaluation of their rates,
// following the published rate expressions; all reference parameters are in kmol-m-s-J.
#pragma once
#include "mechs.h"

namespace vh {

struct Env {
    double T = 0, P = 0, C = 0, Te = 0;       // C: total gas concentration
    std::map<string, double> c;               // concentrations by species
    std::map<string, double> theta;           // coverages
    std::map<string, double> h;               // partial molar enthalpies, J/kmol
    std::map<string, double> X;               // gas mole fractions
    std::map<string, double> W;               // molecular weights
    double gamma = 0;                         // site density
    mutable double slack = 0;                 // rounding in the last rate constant, from differences of mole fractions
};

struct UnitChoice { string len, qty, act, prs; double l, q, e, p; };

inline UnitChoice randomUnits(Rng& g) {
    UnitChoice u;
    static const double NA = 6.02214076e26, R = 8314.46261815324;
    static const vector<std::pair<string, double>> L = {{"m", 1}, {"cm", 0.01}, {"mm", 1e-3}, {"cm", 0.01}}, Q = {{"kmol", 1}, {"mol", 1e-3}, {"molec", 1 / NA}, {"mol", 1e-3}, {"gmol", 1e-3}},
        E = {{"J/kmol", 1}, {"J/mol", 1e3}, {"cal/mol", 4184}, {"kcal/mol", 4184e3}, {"K", R}, {"eV", NA * 1.602176634e-19}, {"kJ/mol", 1e6}},
        P = {{"Pa", 1}, {"atm", 101325}, {"bar", 1e5}, {"dyn/cm^2", 0.1}, {"kPa", 1000}};
    auto a = g.pick(L); u.len = a.first; u.l = a.second;
    a = g.pick(Q); u.qty = a.first; u.q = a.second;
    a = g.pick(E); u.act = a.first; u.e = a.second;
    a = g.pick(P); u.prs = a.first; u.p = a.second;
    return u;
}
inline string unitMap(const UnitChoice& u) { return cat("{length: ", u.len, ", quantity: ", u.qty, ", activation-energy: ", u.act, ", pressure: ", u.prs, "}"); }

typedef std::function<double(const Env&)> RateFn;

struct GRx {
    string type, equation, yaml;
    vector<std::pair<string, int>> r, p;
    std::map<string, double> orders;
    bool rev = true, massM = false, hasM = false, custom = false;
    double defEff = 1;
    std::map<string, double> eff;
    RateFn kf;
    string key;
};

struct Pool {
    vector<string> names;
    vector<std::map<string, int>> comp;
    bool surf = false;
};

inline double chebT(int n, double x) { double a = 1, b = x; for (int i = 0; i < n; i++) { double c = 2 * x * b - a; a = b; b = c; } return a; }

inline double arr(double A, double b, double Ea, double T) { return A * std::pow(T, b) * std::exp(-Ea / (8314.46261815324 * T)); }

struct Gen {
    Rng& g;
    UnitChoice u;          // units of the file
    UnitChoice ux;         // units in force for the entry being written
    vector<string> gasNames;
    std::map<string, std::map<string, int>> comp;
    std::set<string> surfSet;
    std::map<string, int> sites;   // of the surface species that occupy more than one
    std::set<string> used;
    bool unitsInValues = true;

    explicit Gen(Rng& g_) : g(g_), u(randomUnits(g_)), ux(u) {}

    string num(double v) { return cat(v); }
    // a rate coefficient with units kmol^(1-n) m^L s^-1
    string rateNum(double A, double n, double L) {
        UnitChoice w = ux;
        bool explicitUnits = unitsInValues && g.p(0.25);
        if (explicitUnits) w = randomUnits(g);
        double f = std::pow(w.q, 1 - n) * std::pow(w.l, L);
        string s = num(A / f);
        if (!explicitUnits) return s;
        s += " " + (n == 1 && L == 0 ? string("1/s") : cat(w.len, "^", L, "*", w.qty, "^", 1 - n, "/s"));
        return "\"" + s + "\"";
    }
    string energy(double Ea) {
        if (unitsInValues && g.p(0.25)) { UnitChoice w = randomUnits(g); return cat("\"", num(Ea / w.e), " ", w.act, "\""); }
        return num(Ea / ux.e);
    }
    string pressure(double P) {
        if (unitsInValues && g.p(0.25)) { UnitChoice w = randomUnits(g); return cat("\"", num(P / w.p), " ", w.prs, "\""); }
        return num(P / ux.p);
    }
    struct Arr { double A, b, Ea; double operator()(double T) const { return arr(A, b, Ea, T); } };
    Arr randomArr(double lo = 1e2, double hi = 1e10) {
        Arr a{g.logu(lo, hi), g.p(0.3) ? 0 : g.uni(-2, 2), g.p(0.2) ? 0 : g.uni(-1e7, 2e8)};
        // keep the value near A at 1000 K
        a.A /= std::pow(1000., a.b);
        if (g.p(0.05)) a.Ea = 0;
        return a;
    }
    string arrYaml(const Arr& a, double n, double L, const string& extra = "") {
        string A = rateNum(a.A, n, L), E = energy(a.Ea);
        if (extra.empty() && g.p(0.3)) return cat("[", A, ", ", num(a.b), ", ", E, "]");
        return cat("{", extra, "A: ", A, ", b: ", num(a.b), ", Ea: ", E, "}");
    }
    static string side(const vector<std::pair<string, int>>& v, const string& tail) {
        string s;
        for (auto& [nm, c] : v) s += cat(s.empty() ? "" : " + ", c == 1 ? string() : cat(c, " "), nm);
        return s + tail;
    }
    // balanced pairs of multisets
    bool randomBalanced(const vector<string>& names, vector<std::pair<string, int>>& r, vector<std::pair<string, int>>& p, int maxN, std::function<bool(const std::map<string, int>&)> okR = nullptr) {
        for (int tries = 0; tries < 400; tries++) {
            std::map<string, int> a, el;
            int n = int(g.i(1, maxN));
            for (int i = 0; i < n; i++) { auto& s = g.pick(names); a[s]++; for (auto& [e, c] : comp[s]) el[e] += c; }
            if (okR && !okR(a)) continue;
            // random product set with the same elements by rejection
            for (int t2 = 0; t2 < 60; t2++) {
                std::map<string, int> b, eb;
                int m = int(g.i(1, maxN));
                for (int i = 0; i < m; i++) { auto& s = g.pick(names); b[s]++; for (auto& [e, c] : comp[s]) eb[e] += c; }
                if (eb != el) continue;
                bool common = false;
                for (auto& [s, c] : a) if (b.count(s)) common = true;
                if (common) continue;
                r.assign(a.begin(), a.end());
                p.assign(b.begin(), b.end());
                string k1 = side(r, ""), k2 = side(p, "");
                if (used.count(k1 + "=" + k2) || used.count(k2 + "=" + k1)) break;
                used.insert(k1 + "=" + k2);
                return true;
            }
        }
        return false;
    }
    void efficiencies(GRx& x, string& y, const string& ind) {
        if (g.p(0.6)) {
            string s;
            std::set<string> seen;
            int n = int(g.i(1, 3));
            for (int i = 0; i < n; i++) {
                string nm = g.pick(gasNames);
                if (!seen.insert(nm).second) continue;
                double e = g.p(0.15) ? 0 : g.uni(0, 8);
                x.eff[nm] = e;
                s += cat(s.empty() ? "" : ", ", nm, ": ", num(e));
            }
            y += cat(ind, "efficiencies: {", s, "}\n");
            if (g.p(0.3)) { x.defEff = g.uni(0, 2); y += cat(ind, "default-efficiency: ", num(x.defEff), "\n"); }
        }
    }
    static double thirdBody(const GRx& x, const Env& e) {
        double m = 0;
        for (auto& [nm, c] : e.X) { (void)c; auto it = x.eff.find(nm); m += (it != x.eff.end() ? it->second : x.defEff) * e.c.at(nm); }
        return m;
    }
    static double troeF(double Fc, double Pr) {
        double lf = std::log10(std::max(Fc, 1e-300)), lp = std::log10(std::max(Pr, 1e-300));
        double C = -0.4 - 0.67 * lf, N = 0.75 - 1.27 * lf, f1 = (lp + C) / (N - 0.14 * (lp + C));
        return std::pow(10., lf / (1 + f1 * f1));
    }
    // blending function text and reference
    std::function<double(double, double)> blending(string& y, const string& ind, bool troeOnly = false) {
        int kind = troeOnly ? 1 : int(g.i(0, 3));
        if (kind == 1) {
            double A = g.uni(0.05, 0.95), T3 = g.logu(50, 5e3), T1 = g.logu(50, 1e4), T2 = 0;
            // published fits also hold extremes: degenerate temperatures, A outside of (0, 1), negative T2
            if (g.p(0.1)) T3 = g.pick({1e-30, 1e30, 1e-15});
            if (g.p(0.1)) T1 = g.pick({1e-30, 1e30, 1e-15});
            if (g.p(0.1)) A = g.pick({0.0, 1.0, -0.3, 1.4});
            string s = cat("{A: ", num(A), ", T3: ", num(T3), ", T1: ", num(T1));
            if (g.p(0.5)) { T2 = g.p(0.2) ? -g.logu(10, 1e3) : g.logu(100, 1e5); s += cat(", T2: ", num(T2)); }
            y += cat(ind, "Troe: ", s, "}\n");
            return [=](double T, double Pr) {
                double F = (1 - A) * std::exp(-T / T3) + A * std::exp(-T / T1) + (T2 != 0 ? std::exp(-T2 / T) : 0);
                return troeF(F, Pr);
            };
        }
        if (kind == 2) {
            double a = g.uni(0.1, 2), b = g.uni(0, 1500), c = g.uni(100, 3000), d = 1, e = 0;
            string s = cat("{A: ", num(a), ", B: ", num(b), ", C: ", num(c));
            if (g.p(0.5)) { d = g.uni(0.3, 3); e = g.uni(-0.3, 0.3); s += cat(", D: ", num(d), ", E: ", num(e)); }
            y += cat(ind, "SRI: ", s, "}\n");
            return [=](double T, double Pr) {
                double lp = std::log10(std::max(Pr, 1e-300));
                return d * std::pow(a * std::exp(-b / T) + std::exp(-T / c), 1 / (1 + lp * lp)) * std::pow(T, e);
            };
        }
        if (kind == 3) {
            double A = g.uni(0.1, 0.5), B = g.p(0.3) ? 0 : g.uni(-4e-5, 1e-4);
            y += cat(ind, "Tsang: {A: ", num(A), B != 0 || g.p(0.5) ? cat(", B: ", num(B)) : string(), "}\n");
            return [=](double T, double Pr) { return troeF(A + B * T, Pr); };
        }
        return [](double, double) { return 1.0; };
    }
    // k(T, P) tables
    std::function<double(double, double)> plog(string& y, const string& ind, double n, double L) {
        struct Row { double P; Arr a; string t; };
        int np = int(g.i(2, 5));
        vector<Row> rows;
        double P = g.logu(1e2, 1e4);
        for (int i = 0; i < np; i++) {
            Arr a = randomArr();
            string t = pressure(P);
            rows.push_back({P, a, t});
            if (g.p(0.25)) rows.push_back({P, randomArr(), t});
            P *= g.logu(1.5, 50);
        }
        y += ind + "rate-constants:\n";
        for (auto& w : rows) y += cat(ind, "- ", arrYaml(w.a, n, L, cat("P: ", w.t, ", ")), "\n");
        return [rows](double T, double P) {
            // sums at each pressure
            vector<std::pair<double, double>> k;
            for (auto& w : rows) { if (!k.empty() && k.back().first == w.P) k.back().second += w.a(T); else k.push_back({w.P, w.a(T)}); }
            if (P <= k.front().first) return k.front().second;
            if (P >= k.back().first) return k.back().second;
            size_t i = 0;
            while (P > k[i + 1].first) i++;
            double f = (std::log(P) - std::log(k[i].first)) / (std::log(k[i + 1].first) - std::log(k[i].first));
            return std::exp(std::log(k[i].second) + f * (std::log(k[i + 1].second) - std::log(k[i].second)));
        };
    }
    std::function<double(double, double)> cheby(string& y, const string& ind, double n, double L) {
        double T0 = g.uni(200, 300), T1 = g.uni(2600, 3500), P0 = g.logu(10, 900), P1 = g.logu(1.2e7, 1e9);
        int nt = int(g.i(1, 6)), np = int(g.i(1, 5));
        vector<vector<double>> a(nt, vector<double>(np));
        for (int i = 0; i < nt; i++) for (int j = 0; j < np; j++) a[i][j] = g.uni(-1, 1) / (1 + i + j);
        a[0][0] = g.uni(-2, 6);
        double f = std::pow(ux.q, 1 - n) * std::pow(ux.l, L);
        y += cat(ind, "temperature-range: [", num(T0), ", ", num(T1), "]\n", ind, "pressure-range: [", pressure(P0), ", ", pressure(P1), "]\n", ind, "data:\n");
        for (int i = 0; i < nt; i++) {
            y += ind + "- [";
            for (int j = 0; j < np; j++) y += cat(j ? ", " : "", num(i || j ? a[i][j] : a[i][j] - std::log10(f)));
            y += "]\n";
        }
        return [=](double T, double P) {
            double t = (2 / T - 1 / T0 - 1 / T1) / (1 / T1 - 1 / T0), p = (2 * std::log10(P) - std::log10(P0) - std::log10(P1)) / (std::log10(P1) - std::log10(P0));
            double s = 0;
            for (int i = 0; i < nt; i++) for (int j = 0; j < np; j++) s += a[i][j] * chebT(i, t) * chebT(j, p);
            return std::pow(10., s);
        };
    }
    static double bmEnergy(double E0, double w, double dH) {
        if (dH < -4 * E0) return 0;
        if (dH > 4 * E0) return dH;
        double vp = 2 * w * (w + E0) / (w - E0);
        return (w + dH / 2) * std::pow(vp - 2 * w + dH, 2) / (vp * vp - 4 * w * w + dH * dH);
    }

    // one gas reaction
    bool gasReaction(GRx& x, const string& forced = "") {
        static const vector<string> types = {"elementary", "elementary", "three-body", "three-body", "falloff", "falloff", "chemically-activated", "plog", "Chebyshev", "Blowers-Masel", "linear-Burke", "explicit-collider", "two-temperature-plasma"};
        x = GRx();
        x.type = forced.empty() ? g.pick(types) : forced;
        ux = g.p(0.15) ? randomUnits(g) : u;
        bool tb = x.type == "three-body" || x.type == "explicit-collider";
        if (!randomBalanced(gasNames, x.r, x.p, tb ? 2 : 3)) return false;
        x.rev = x.type == "two-temperature-plasma" ? false : g.p(0.75);
        string tail, y;
        int nr = 0;
        for (auto& [s, c] : x.r) { x.orders[s] = c; nr += c; }
        double n = nr, L = 3 * (n - 1);
        string collider;
        if (x.type == "three-body") { tail = " + M"; x.hasM = x.massM = true; }
        if (x.type == "explicit-collider") {
            // recognized without a type only where the collider is the one common species and one side has three molecules
            vector<string> cand;
            int np = 0;
            for (auto& [s, c] : x.p) np += c;
            if (nr != 2 && np != 2) return false;
            for (auto& s : gasNames) { bool in = false; for (auto& [q, c] : x.r) in |= q == s; for (auto& [q, c] : x.p) in |= q == s; if (!in) cand.push_back(s); }
            if (cand.empty()) return false;
            collider = g.pick(cand);
            tail = " + " + collider;
            x.hasM = x.massM = true;
            x.defEff = 0;
            x.eff[collider] = 1;
        }
        if (x.type == "falloff" || x.type == "chemically-activated") {
            x.hasM = true;
            tail = " (+M)";
            if (g.p(0.15)) { collider = g.pick(gasNames); tail = " (+" + collider + ")"; x.defEff = 0; x.eff[collider] = 1; }
        }
        x.equation = side(x.r, tail) + (x.rev ? g.p(0.5) ? " <=> " : " = " : " => ") + side(x.p, tail);
        y = "- equation: \"" + x.equation + "\"\n";
        string ind = "  ";
        if (unitMap(ux) != unitMap(u)) y += ind + "units: " + unitMap(ux) + "\n";
        if (x.type == "elementary") {
            Arr a = randomArr();
            // orders other than the stoichiometric ones
            if (!x.rev && g.p(0.3)) {
                auto& s = x.r[g.idx(x.r.size())].first;
                double o = g.pick({0.5, 1.5, 0.0, 2.0, 1.0});
                string t = cat(s, ": ", num(o));
                x.orders[s] = o;
                if (g.p(0.3)) { string z = g.pick(gasNames); bool in = false; for (auto& [q, c] : x.r) in |= q == z;
                    if (!in) { double oz = g.pick({0.5, 1.0}); x.orders[z] = oz; t += cat(", ", z, ": ", num(oz)); y += ind + "nonreactant-orders: true\n"; } }
                y += ind + "orders: {" + t + "}\n";
                x.custom = true;
                n = 0;
                for (auto& [q, o2] : x.orders) n += o2;
                L = 3 * (n - 1);
            }
            if (g.p(0.07)) { a.A = -a.A; y += ind + "negative-A: true\n"; }
            y += ind + "rate-constant: " + arrYaml(a, n, L) + "\n";
            x.kf = [a](const Env& e) { return a(e.T); };
        } else if (tb) {
            Arr a = randomArr();
            n += 1; L += 3;
            if (x.type == "three-body" && g.p(0.5)) y += ind + "type: three-body\n";
            y += ind + "rate-constant: " + arrYaml(a, n, L) + "\n";
            if (x.type == "three-body") efficiencies(x, y, ind);
            x.kf = [a](const Env& e) { return a(e.T); };
        } else if (x.type == "falloff" || x.type == "chemically-activated") {
            bool ca = x.type != "falloff";
            y += ind + "type: " + x.type + "\n";
            // low limit has one more concentration than high (falloff); one fewer in high than low (chemically activated)
            Arr lo = randomArr(1e4, 1e12), hi = randomArr(1e4, 1e12);
            double nlo = ca ? n : n + 1, nhi = ca ? n - 1 : n;
            y += ind + "low-P-rate-constant: " + arrYaml(lo, nlo, 3 * (nlo - 1)) + "\n" + ind + "high-P-rate-constant: " + arrYaml(hi, nhi, 3 * (nhi - 1)) + "\n";
            auto F = blending(y, ind);
            if (collider.empty()) efficiencies(x, y, ind);
            GRx tbx; tbx.eff = x.eff; tbx.defEff = x.defEff;
            x.kf = [=](const Env& e) {
                double m = thirdBody(tbx, e), k0 = lo(e.T), ki = hi(e.T), pr = k0 * m / ki;
                return ca ? k0 / (1 + pr) * F(e.T, pr) : ki * pr / (1 + pr) * F(e.T, pr);
            };
        } else if (x.type == "plog") {
            y += ind + "type: pressure-dependent-Arrhenius\n";
            auto k = plog(y, ind, n, L);
            x.kf = [k](const Env& e) { return k(e.T, e.P); };
        } else if (x.type == "Chebyshev") {
            y += ind + "type: Chebyshev\n";
            auto k = cheby(y, ind, n, L);
            x.kf = [k](const Env& e) { return k(e.T, e.P); };
        } else if (x.type == "Blowers-Masel") {
            double A = g.logu(1e2, 1e8), b = g.uni(-1, 2), E0 = g.uni(1e6, 2e8), w = g.uni(2.5e8, 1e9);
            A /= std::pow(1000., b);
            y += ind + "type: Blowers-Masel\n" + ind + "rate-constant: {A: " + rateNum(A, n, L) + ", b: " + num(b) + ", Ea0: " + energy(E0) + ", w: " + energy(w) + "}\n";
            auto r = x.r, p = x.p;
            x.kf = [=](const Env& e) {
                double dH = 0;
                for (auto& [s, c] : p) dH += c * e.h.at(s);
                for (auto& [s, c] : r) dH -= c * e.h.at(s);
                return arr(A, b, bmEnergy(E0, w, dH), e.T);
            };
        } else if (x.type == "two-temperature-plasma") {
            double A = g.logu(1e2, 1e8), b = g.uni(-2, 1), Eg = g.uni(-5e6, 5e7), Ee = g.uni(-5e6, 5e7);
            y += ind + "type: two-temperature-plasma\n" + ind + "rate-constant: {A: " + rateNum(A, n, L) + ", b: " + num(b) + ", Ea-gas: " + energy(Eg) + ", Ea-electron: " + energy(Ee) + "}\n";
            x.kf = [=](const Env& e) {
                const double R = 8314.46261815324;
                return A * std::pow(e.Te, b) * std::exp(-Eg / (R * e.T)) * std::exp(Ee * (e.Te - e.T) / (R * e.T * e.Te));
            };
        } else {   // linear-Burke
            y += ind + "type: linear-Burke\n" + ind + "colliders:\n";
            struct Col { string nm; Arr eps; std::function<double(double, double)> k; };
            vector<Col> cols;
            bool eig = g.p(0.3);
            auto rate = [&](string& yy) -> std::function<double(double, double)> {
                int kind = int(g.i(0, 2));
                if (kind == 0) { yy += "    type: pressure-dependent-Arrhenius\n"; return plog(yy, "    ", n, L); }
                if (kind == 1) { yy += "    type: Chebyshev\n"; return cheby(yy, "    ", n, L); }
                yy += "    type: falloff\n";
                Arr lo = randomArr(1e4, 1e12), hi = randomArr(1e4, 1e12);
                yy += "    low-P-rate-constant: " + arrYaml(lo, n + 1, 3 * n) + "\n    high-P-rate-constant: " + arrYaml(hi, n, L) + "\n";
                auto F = blending(yy, "    ", true);
                return [=](double T, double P) { double m = P / (8314.46261815324 * T), k0 = lo(T), ki = hi(T), pr = k0 * m / ki; return ki * pr / (1 + pr) * F(T, pr); };
            };
            Col m{"M", {1, 0, 0}, nullptr};
            y += "  - name: M\n";
            if (eig) { m.eps = randomArr(1e6, 1e12); y += "    eig0: " + cat("{A: ", num(m.eps.A), ", b: ", num(m.eps.b), ", Ea: ", num(m.eps.Ea / ux.e), "}") + "\n"; }
            m.k = rate(y);
            auto names = gasNames;
            g.shuffle(names);
            int nc = int(g.i(1, 3));
            for (int i = 0; i < nc && i < int(names.size()); i++) {
                Col c{names[i], {}, nullptr};
                if (eig) c.eps = {m.eps.A * g.logu(0.1, 10), m.eps.b + g.uni(-0.5, 0.5), m.eps.Ea + g.uni(-1e7, 1e7)};
                else c.eps = {g.logu(0.1, 10), g.uni(-0.3, 0.3), g.uni(-5e6, 5e6)};
                y += cat("  - name: ", c.nm, "\n    ", eig ? "eig0" : "efficiency", ": {A: ", num(c.eps.A), ", b: ", num(c.eps.b), ", Ea: ", num(c.eps.Ea / ux.e), "}\n");
                if (g.p(0.4)) c.k = rate(y);
                cols.push_back(c);
            }
            x.kf = [=](const Env& e) {
                double T = e.T, em = m.eps(T), S = 0, Xl = 0;
                for (auto& c : cols) { S += c.eps(T) / em * e.X.at(c.nm); Xl += e.X.at(c.nm); }
                S += 1 - Xl;
                double k = 0, rest = 1;
                for (auto& c : cols) if (c.k) {
                    double ep = c.eps(T) / em, xt = ep * e.X.at(c.nm) / S;
                    k += c.k(T, S / ep * e.P) * xt;
                    rest -= xt;
                }
                double km = m.k(T, S * e.P);
                e.slack = 1e-14 * km * (1 + 1 / S);
                return k + km * rest;
            };
        }
        x.yaml = y;
        return true;
    }

    // one surface reaction among gas and surface species
    bool surfReaction(GRx& x, const vector<string>& surfNames, bool motzDefault) {
        static const vector<string> types = {"interface-Arrhenius", "interface-Arrhenius", "sticking-Arrhenius", "interface-Blowers-Masel", "sticking-Blowers-Masel"};
        x = GRx();
        x.type = g.pick(types);
        ux = g.p(0.15) ? randomUnits(g) : u;
        vector<string> all = surfNames;
        for (auto& s : gasNames) all.push_back(s);
        bool stick = x.type[0] == 's';
        auto isSurf = [&](const string& s) { return surfSet.count(s) > 0; };
        auto ok = [&](const std::map<string, int>& a) {
            int ns = 0, ng = 0;
            for (auto& [s, c] : a) { if (isSurf(s)) ns += c; else ng += c; }
            return stick ? ns >= 1 && ng == 1 : ns >= 1;
        };
        if (!randomBalanced(all, x.r, x.p, 3, ok)) return false;
        x.rev = g.p(0.5);
        double os = 0, og = 0, sizes = 1;
        string gas;
        for (auto& [s, c] : x.r) { x.orders[s] = c; if (isSurf(s)) { os += c; if (sites.count(s)) sizes *= std::pow(sites.at(s), c); } else { og += c; gas = s; } }
        x.equation = side(x.r, "") + (x.rev ? " <=> " : " => ") + side(x.p, "");
        string y = "- equation: \"" + x.equation + "\"\n", ind = "  ";
        if (unitMap(ux) != unitMap(u)) y += ind + "units: " + unitMap(ux) + "\n";
        std::function<double(const Env&)> base;
        bool bm = x.type.find("Blowers") != string::npos;
        double n = os + og, L = -2 + 3 * og + 2 * os;
        if (stick) { n = 1; L = 0; }
        double A, b, Ea;
        if (stick) { A = g.logu(1e-6, 1); b = g.p(0.5) ? 0 : g.uni(-0.5, 0.3); Ea = g.p(0.5) ? 0 : g.uni(0, 8e7); }
        else { A = g.logu(1e8, 1e16); b = g.p(0.5) ? 0 : g.uni(-1, 1); Ea = g.uni(0, 2e8); }
        A /= std::pow(700., b);
        string key = stick ? "sticking-coefficient" : "rate-constant";
        string As = stick ? num(A) : rateNum(A, n, L);
        if (bm) {
            double E0 = g.uni(1e6, 1e8), w = g.uni(3e8, 1e9);
            y += ind + "type: " + g.pick({string("Blowers-Masel"), x.type}) + "\n";
            y += ind + key + ": {A: " + As + ", b: " + num(b) + ", Ea0: " + energy(E0) + ", w: " + energy(w) + "}\n";
            auto r = x.r, p = x.p;
            base = [=](const Env& e) {
                double dH = 0;
                for (auto& [s, c] : p) dH += c * e.h.at(s);
                for (auto& [s, c] : r) dH -= c * e.h.at(s);
                return arr(A, b, bmEnergy(E0, w, dH), e.T);
            };
        } else {
            if (g.p(0.3)) y += ind + "type: " + x.type + "\n";
            y += ind + key + ": {A: " + As + ", b: " + num(b) + ", Ea: " + energy(Ea) + "}\n";
            base = [=](const Env& e) { return arr(A, b, Ea, e.T); };
        }
        struct Cov { string s; double a, m; vector<double> E; };
        vector<Cov> cov;
        if (g.p(0.5)) {
            y += ind + "coverage-dependencies:\n";
            std::set<string> seen;
            int nc = int(g.i(1, 2));
            for (int i = 0; i < nc; i++) {
                Cov c{g.pick(surfNames), g.p(0.5) ? 0 : g.uni(-1, 1), g.p(0.5) ? 0 : g.uni(-1, 1), {}};
                if (!seen.insert(c.s).second) continue;
                int ne = g.p(0.7) ? 1 : 4;
                string es;
                for (int k = 0; k < ne; k++) { c.E.push_back(g.uni(-4e7, 4e7) / ne); es += cat(k ? ", " : "", energy(c.E.back())); }
                if (ne == 4) es = "[" + es + "]";
                if (g.p(0.5)) y += cat(ind, "  ", c.s, ": {a: ", num(c.a), ", m: ", num(c.m), ", E: ", es, "}\n");
                else y += cat(ind, "  ", c.s, ": [", num(c.a), ", ", num(c.m), ", ", es, "]\n");
                cov.push_back(c);
            }
        }
        auto covf = [cov](const Env& e) {
            double f = 1;
            for (auto& c : cov) {
                double th = e.theta.at(c.s), En = 0;
                for (size_t k = 0; k < c.E.size(); k++) En += c.E[k] * std::pow(th, k + 1);
                f *= std::pow(10., c.a * th) * (c.m != 0 ? std::pow(th, c.m) : 1) * std::exp(-En / (8314.46261815324 * e.T));
            }
            return f;
        };
        bool motz = motzDefault;
        if (stick && g.p(0.3)) { motz = g.p(0.5); y += cat(ind, "Motz-Wise: ", motz ? "true" : "false", "\n"); }
        if (stick) x.kf = [=](const Env& e) {
            double gam = base(e) * covf(e);
            if (motz) gam /= 1 - 0.5 * gam;
            return gam * sizes / std::pow(e.gamma, os) * std::sqrt(8314.46261815324 * e.T / (2 * 3.14159265358979323846 * e.W.at(gas)));
        };
        else x.kf = [=](const Env& e) { return base(e) * covf(e); };
        x.yaml = y;
        return true;
    }
};

struct GMech {
    string yaml;
    vector<GRx> gas, surf;
    vector<string> gasNames, surfNames;
    string unitsText;
    std::map<string, int> sites;
    double siteDensity = 0;
    bool hasSurf = false;
};

inline void loadComp(Gen& q, const vector<string>& names, const string& file) {
    static thread_local std::map<string, AnyMap> roots;
    auto it = roots.find(file);
    if (it == roots.end()) it = roots.emplace(file, AnyMap::fromYamlFile(findData(file))).first;
    for (auto& n : names) {
        auto& sp = it->second["species"].getMapWhere("name", n);
        for (auto& [e, v] : sp["composition"].asMap<double>()) q.comp[n][e] = int(v);
    }
}

inline GMech randomMechanism(Rng& g, int nGas, int nSurf, const string& forced = "", bool unitsInValues = true) {
    GMech m;
    Gen q(g);
    q.unitsInValues = unitsInValues;
    static const vector<string> pool = {"H2", "H", "O", "O2", "OH", "H2O", "HO2", "H2O2", "CO", "CO2", "CH3", "CH4", "HCO", "CH2O", "AR", "N2", "NO", "N", "N2O"};
    m.gasNames = pool;
    g.shuffle(m.gasNames);
    m.gasNames.resize(size_t(g.i(9, 14)));
    for (string s : {"H", "O", "OH", "H2O", "O2", "H2"}) if (std::find(m.gasNames.begin(), m.gasNames.end(), s) == m.gasNames.end()) m.gasNames.push_back(s);
    g.shuffle(m.gasNames);
    loadComp(q, m.gasNames, "gri30.yaml");
    q.gasNames = m.gasNames;
    for (int i = 0; i < nGas; i++) { GRx x; if (q.gasReaction(x, forced)) m.gas.push_back(x); }
    string surfBlock, surfRx, ownSpecies;
    if (nSurf) {
        m.hasSurf = true;
        m.surfNames = {"PT(S)", "H(S)", "H2O(S)", "OH(S)", "CO(S)", "CO2(S)", "O(S)"};
        q.surfSet.insert(m.surfNames.begin(), m.surfNames.end());
        loadComp(q, m.surfNames, "ptcombust.yaml");
        // some species occupy two sites
        if (g.p(0.4)) for (auto& n : m.surfNames) if (n != "PT(S)" && g.p(0.4)) { q.comp[n]["Pt"]++; q.sites[n] = 2; }
        bool motz = g.p(0.3);
        for (int i = 0; i < nSurf; i++) { GRx x; if (q.surfReaction(x, m.surfNames, motz)) m.surf.push_back(x); }
        m.siteDensity = g.logu(5e-9, 1e-7);
        string names;
        for (auto& s : m.surfNames) {
            if (!q.sites.count(s)) { names += (names.empty() ? "" : ", ") + s; continue; }
            string co;
            for (auto& [e, c] : q.comp[s]) if (c) co += cat(co.empty() ? "" : ", ", e, ": ", c);
            ownSpecies += cat("- name: ", s, "\n  composition: {", co, "}\n  sites: 2\n  thermo: {model: constant-cp, T0: 298.15 K, h0: ", q.num(g.uni(-3e8, 0)), " J/kmol, s0: ",
                              q.num(g.uni(0, 2e5)), " J/kmol/K, cp0: ", q.num(g.uni(2e4, 1e5)), " J/kmol/K}\n");
        }
        if (!ownSpecies.empty()) ownSpecies = "species:\n" + ownSpecies;
        surfBlock = cat("- name: surf\n  thermo: ideal-surface\n  adjacent-phases: [gas]\n  elements: [Pt, H, O, C]\n  species: [{ptcombust.yaml/species: [", names, "]}", ownSpecies.empty() ? "" : ", {species: all}", "]\n  kinetics: surface\n  reactions: [surf-reactions]\n",
                        motz ? "  Motz-Wise: true\n" : "", "  site-density: ", q.num(m.siteDensity), " kmol/m^2\n");
        surfRx = m.surf.empty() ? "surf-reactions: []\n" : "surf-reactions:\n";
        for (auto& x : m.surf) surfRx += x.yaml;
    }
    string names;
    for (auto& s : m.gasNames) names += (names.empty() ? "" : ", ") + (s == "NO" || s == "N" ? "\"" + s + "\"" : s);
    m.unitsText = unitMap(q.u);
    m.yaml = cat("units: ", m.unitsText, "\nphases:\n- name: gas\n  thermo: ideal-gas\n  elements: [H, O, C, N, Ar]\n  species: [{gri30.yaml/species: [", names, "]}]\n  kinetics: bulk\n  reactions: [gas-reactions]\n",
                 surfBlock, m.gas.empty() ? "gas-reactions: []\n" : "gas-reactions:\n");
    for (auto& x : m.gas) m.yaml += x.yaml;
    m.yaml += surfRx + ownSpecies;
    m.sites = q.sites;
    return m;
}

// environment of the present state
inline Env environment(Solution& gas, Solution* surf) {
    Env e;
    auto& th = *gas.thermo();
    e.T = th.temperature(); e.P = th.pressure(); e.C = th.molarDensity(); e.Te = th.electronTemperature();
    vector<double> c(th.nSpecies()), h(th.nSpecies());
    th.getConcentrations(c.data());
    th.getPartialMolarEnthalpies(h.data());
    for (size_t k = 0; k < c.size(); k++) { auto n = th.speciesName(k); e.c[n] = c[k]; e.h[n] = h[k]; e.X[n] = th.moleFraction(k); e.W[n] = th.molecularWeight(k); }
    if (surf) {
        auto& s = dynamic_cast<SurfPhase&>(*surf->thermo());
        size_t n = s.nSpecies();
        vector<double> hs(n), cov(n), cs(n);
        s.getPartialMolarEnthalpies(hs.data());
        s.getCoverages(cov.data());
        s.getConcentrations(cs.data());
        for (size_t k = 0; k < n; k++) { auto nm = s.speciesName(k); e.h[nm] = hs[k]; e.theta[nm] = cov[k]; e.c[nm] = cs[k]; }
        e.gamma = s.siteDensity();
    }
    return e;
}

inline shared_ptr<Solution> phaseFrom(const AnyMap& root, const string& name, const vector<shared_ptr<Solution>>& adj = {}) {
    AnyMap r = root;
    AnyMap& node = r["phases"].getMapWhere("name", name);
    return newSolution(node, r, "none", adj);
}

} // namespace vh
