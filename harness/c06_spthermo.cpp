// C06: species thermo parameterizations evaluate their documented functions.
//
// Random parameterizations of every model are written as input, evaluated through every
// route (single object, one species of a phase, whole phase of mixed species) and
// compared with reference functions written here from the documentation. Reported
// parameters and generated input must rebuild the same function, and histories of
// heat-of-formation changes, resets and species replacements must act as documented.
#include "ct.h"
#include "cantera/thermo/SpeciesThermoFactory.h"
#include "cantera/thermo/MultiSpeciesThermo.h"
#include "cantera/thermo/speciesThermoTypes.h"
using namespace vh;

static const double R = GasConstant;

static string num(double x) { char b[40]; snprintf(b, 40, "%.17g", x); return b; }
static string list(const vector<double>& v) { string s = "["; for (size_t i = 0; i < v.size(); i++) s += (i ? ", " : "") + num(v[i]); return s + "]"; }

struct Val { double cp = 0, h = 0, s = 0, sc = 0, sh = 0, ss = 0; };  // cp/R, h/RT, s/R and sums of magnitudes

struct Spec {
    string model;
    double pref = OneAtm, tlow = 0, thigh = 1e300;
    vector<double> bounds;            // region boundaries (n+1)
    vector<vector<double>> data;
    double t0 = 298.15, h0 = 0, s0 = 0, cp0 = 0;
    vector<std::pair<double, double>> mu; // T, mu/R
    double dh = 0;                    // current shift of the heat of formation (J/kmol)

    size_t region(double T, bool upper) const {
        // region containing T; within rounding of an interior boundary, either neighbour
        size_t n = bounds.size() - 1, r = 0;
        for (size_t i = 1; i < n; i++) {
            if (T > bounds[i] * (upper ? 1 - 1e-12 : 1 + 1e-12)) r = i;
        }
        return r;
    }
    static void add(double& v, double& sc, double x) { v += x; sc += std::fabs(x); }
    Val eval(double T, bool upper) const {
        Val v;
        auto C = [&](double x) { add(v.cp, v.sc, x); };
        auto H = [&](double x) { add(v.h, v.sh, x); };
        auto S = [&](double x) { add(v.s, v.ss, x); };
        double lnT = std::log(T);
        if (model == "NASA7") {
            auto& a = data[region(T, upper)];
            for (int i = 0; i < 5; i++) {
                C(a[i] * std::pow(T, i));
                H(a[i] * std::pow(T, i) / (i + 1));
                S(i ? a[i] * std::pow(T, i) / i : a[0] * lnT);
            }
            H(a[5] / T); S(a[6]);
        } else if (model == "NASA9") {
            auto& a = data[region(T, upper)];
            for (int i = 0; i < 7; i++) {
                int n = i - 2;
                C(a[i] * std::pow(T, n));
                H(n == -1 ? a[i] * lnT / T : a[i] * std::pow(T, n) / (n + 1));
                S(n == 0 ? a[i] * lnT : a[i] * std::pow(T, n) / n);
            }
            H(a[7] / T); S(a[8]);
        } else if (model == "Shomate") {
            auto& a = data[region(T, upper)];
            double t = T / 1000, RR = R / 1000;  // J/mol/K
            C(a[0] / RR); C(a[1] * t / RR); C(a[2] * t * t / RR); C(a[3] * t * t * t / RR); C(a[4] / (t * t) / RR);
            double k = 1000 / (RR * T);          // kJ/mol -> h/RT
            H(k * a[0] * t); H(k * a[1] * t * t / 2); H(k * a[2] * t * t * t / 3); H(k * a[3] * t * t * t * t / 4); H(-k * a[4] / t); H(k * a[5]);
            S(a[0] * std::log(t) / RR); S(a[1] * t / RR); S(a[2] * t * t / 2 / RR); S(a[3] * t * t * t / 3 / RR); S(-a[4] / (2 * t * t) / RR); S(a[6] / RR);
        } else if (model == "constant-cp") {
            C(cp0 / R);
            H(h0 / R / T); H(cp0 / R); H(-cp0 / R * t0 / T);
            S(s0 / R); S(cp0 / R * std::log(T)); S(-cp0 / R * std::log(t0));
        } else {
            // piecewise constant heat capacity through the given chemical potentials,
            // with h(298.15) = h0
            size_t n = mu.size(), i0 = 0;
            for (size_t i = 0; i < n; i++) if (mu[i].first == 298.15) i0 = i;
            vector<double> h(n), s(n), cp(n);
            h[i0] = h0 / R; s[i0] = (h[i0] - mu[i0].second) / mu[i0].first;
            auto slope = [&](double Ta, double ha, double sa, double Tb, double mub) {
                // mu(Tb) = ha + c (Tb-Ta) - Tb (sa + c ln(Tb/Ta))
                return (mub - ha + Tb * sa) / (Tb - Ta - Tb * std::log(Tb / Ta));
            };
            for (size_t i = i0; i + 1 < n; i++) {
                double c = slope(mu[i].first, h[i], s[i], mu[i+1].first, mu[i+1].second);
                cp[i] = c; h[i+1] = h[i] + c * (mu[i+1].first - mu[i].first); s[i+1] = s[i] + c * std::log(mu[i+1].first / mu[i].first);
            }
            for (size_t i = i0; i-- > 0;) {
                double c = slope(mu[i+1].first, h[i+1], s[i+1], mu[i].first, mu[i].second);
                cp[i] = c; h[i] = h[i+1] + c * (mu[i].first - mu[i+1].first); s[i] = s[i+1] + c * std::log(mu[i].first / mu[i+1].first);
            }
            cp[n-1] = cp[n-2];
            size_t j = 0;
            for (size_t i = 1; i < n; i++) if (T > mu[i].first * (upper ? 1 - 1e-12 : 1 + 1e-12)) j = i;
            // conditioning of the slopes
            double cond = 1;
            for (size_t i = 0; i + 1 < n; i++) { double d = mu[i+1].first / mu[i].first; cond = std::max(cond, 100 / ((d - 1) * (d - 1))); }
            for (double x : cp) v.sc = std::max(v.sc, std::fabs(x));
            for (double x : h) v.sh = std::max(v.sh, std::fabs(x));
            for (double x : s) v.ss = std::max(v.ss, std::fabs(x));
            for (auto& m : mu) v.sc = std::max(v.sc, std::fabs(m.second / m.first));
            v.sc = (v.sc + v.sh / 298 + v.ss) * cond; v.ss = v.sc * std::max(1.0, T / mu[0].first); v.sh = v.sc * std::max(1.0, mu[0].first / T) * std::max(1.0, mu[n-1].first / T);
            v.cp = cp[j]; v.h = (h[j] + cp[j] * (T - mu[j].first)) / T; v.s = s[j] + cp[j] * std::log(T / mu[j].first);
        }
        H(dh / (R * T));
        return v;
    }
    double h298() const { Val v = eval(298.15, false); return v.h * R * 298.15; }
    bool boundary(double T) const {
        if (model == "piecewise-Gibbs") { for (auto& m : mu) if (std::fabs(T - m.first) < 1e-9 * T) return true; return false; }
        for (double b : bounds) if (std::fabs(T - b) < 1e-9 * T) return true;
        return false;
    }
    vector<double> nodes() const {
        vector<double> t = bounds;
        for (auto& m : mu) t.push_back(m.first);
        t.push_back(298.15);
        return t;
    }
    bool shiftable() const { return model == "NASA7" || model == "Shomate" || model == "constant-cp"; }
};

// energy per amount in random units
static string molar(Rng& g, double SI, const char* per = "") {
    static const vector<std::pair<const char*, double>> u{{"J/kmol", 1}, {"J/mol", 1e3}, {"kJ/mol", 1e6}, {"cal/mol", 4184}, {"kcal/mol", 4184e3}, {"kJ/kmol", 1e3}};
    auto& p = g.pick(u);
    return num(SI / p.second) + " " + p.first + per;
}

static Spec randomSpec(Rng& g, const string& model, double pref, double lo, double hi, string& yaml) {
    Spec s;
    s.model = model; s.pref = pref;
    std::ostringstream o;
    o << "{model: " << model << ", ";
    if (pref == OneAtm && g.p(0.4)) {}
    else o << "reference-pressure: " << num(pref / (g.p(0.5) ? 1 : 1)) << " Pa, ";
    if (model == "NASA7" || model == "Shomate" || model == "NASA9") {
        size_t nr = model == "NASA9" ? g.i(1, 5) : g.i(1, 2);
        s.bounds = {lo * g.uni(0.3, 1)};
        vector<double> mid;
        for (size_t i = 1; i < nr; i++) mid.push_back(g.p(0.2) ? g.pick({300.0, 1000.0, 298.15, 500.0}) : g.uni(lo + 1, hi - 1));
        std::sort(mid.begin(), mid.end());
        mid.erase(std::unique(mid.begin(), mid.end()), mid.end());
        for (double m : mid) if (m > s.bounds.back() + 1 && m < hi - 1) s.bounds.push_back(m);
        s.bounds.push_back(hi * g.uni(1, 1.5));
        s.tlow = s.bounds.front(); s.thigh = s.bounds.back();
        for (size_t i = 0; i + 1 < s.bounds.size(); i++) {
            vector<double> a;
            auto co = [&](double m) { return g.p(0.12) ? 0.0 : g.uni(-m, m); };
            if (model == "NASA7") a = {g.uni(2, 9), co(8e-3), co(8e-6), co(4e-9), co(1e-12), co(9e4), co(40)};
            else if (model == "NASA9") a = {co(1e5), co(1e3), g.uni(2, 9), co(8e-3), co(8e-6), co(4e-9), co(1e-12), co(9e4), co(40)};
            else a = {g.uni(15, 90), co(70), co(60), co(20), co(3), co(700), co(300)};
            s.data.push_back(a);
        }
        o << "temperature-ranges: " << list(s.bounds) << ", data: [";
        for (size_t i = 0; i < s.data.size(); i++) o << (i ? ", " : "") << list(s.data[i]);
        o << "]}";
    } else if (model == "constant-cp") {
        auto maybe = [&](const char* n, double& x, double v, const char* per) {
            if (g.p(0.12)) return;
            x = v;
            o << n << ": " << molar(g, v, per) << ", ";
        };
        if (g.p(0.85)) { s.t0 = g.p(0.3) ? 298.15 : g.uni(200, 1500); o << "T0: " << num(s.t0) << " K, "; }
        maybe("h0", s.h0, g.uni(-5e8, 5e8), "");
        maybe("s0", s.s0, g.uni(-1e5, 4e5), "/K");
        maybe("cp0", s.cp0, g.uni(0, 2e5), "/K");
        if (g.p(0.5)) { s.tlow = lo * g.uni(0.3, 1); o << "T-min: " << num(s.tlow) << ", "; }
        if (g.p(0.5)) { s.thigh = hi * g.uni(1, 1.5); o << "T-max: " << num(s.thigh) << " K, "; }
        o << "note: x}";
    } else {
        if (g.p(0.9)) { s.h0 = g.uni(-5e8, 5e8); o << "h0: " << molar(g, s.h0) << ", "; }
        bool dimless = g.p(0.4);
        std::set<double> T{298.15};
        size_t n = g.i(2, 6);
        for (int tries = 0; T.size() < n && tries < 100; tries++) {
            double t = std::round(g.uni(200, 1500) * 100) / 100;
            bool ok = true;
            for (double q : T) if (std::fabs(q / t - 1) < 0.05) ok = false;
            if (ok) T.insert(t);
        }
        double base = g.uni(-5e8, 5e8), sl = g.uni(-3e5, 0);
        if (dimless) o << "dimensionless: true, ";
        o << "data: {";
        bool first = true;
        for (double t : T) {
            double m = base + sl * (t - 298.15) + g.uni(-1e7, 1e7);
            s.mu.push_back({t, m / R});
            o << (first ? "" : ", ") << num(t) << ": " << (dimless ? num(m / R / t) : molar(g, m));
            first = false;
        }
        o << "}}";
    }
    yaml = o.str();
    return s;
}

static const double RT = 2e-12;

static bool matches(const Spec& s, double T, double cp, double h, double sr, bool upper, string* why, double rt) {
    Val v = s.eval(T, upper);
    auto ok = [&](const char* n, double a, double b, double sc) {
        if (std::fabs(a - b) <= rt * sc + 1e-300) return true;
        *why += cat(" ", n, " got ", a, " want ", b, " scale ", sc);
        return false;
    };
    bool r = ok("cp/R", cp, v.cp, v.sc);
    r = ok("h/RT", h, v.h, v.sh) && r;
    r = ok("s/R", sr, v.s, v.ss) && r;
    return r;
}

static bool values(Run& r, const string& key, const Spec& s, double T, double cp, double h, double sr, double rt = RT, const string& extra = "") {
    string why;
    bool ok = matches(s, T, cp, h, sr, false, &why, rt);
    if (!ok && s.boundary(T)) { string w2; ok = matches(s, T, cp, h, sr, true, &w2, rt); }
    return r.check(key + "@" + s.model, ok, cat("T=", T, why, " ", extra));
}

static double randT(Rng& g, const Spec& s, double lo, double hi) {
    if (g.p(0.3)) {
        vector<double> n = s.nodes();
        double t = g.pick(n);
        if (g.p(0.5)) t = std::nextafter(t, g.p(0.5) ? 0 : 1e9);
        else if (g.p(0.5)) t *= 1 + g.uni(-1e-3, 1e-3);
        if (t > lo * 0.5 && t < hi * 1.4) return t;
    }
    return g.uni(lo, hi);
}

static void evalSingle(Run& r, const string& key, const Spec& s, const SpeciesThermoInterpType& th, double T, double rt = RT) {
    double cp = NAN, h = NAN, sr = NAN;
    th.updatePropertiesTemp(T, &cp, &h, &sr);
    values(r, key, s, T, cp, h, sr, rt);
    vector<double> poly(std::max<size_t>(th.temperaturePolySize(), 1));
    th.updateTemperaturePoly(T, poly.data());
    cp = h = sr = NAN;
    th.updateProperties(poly.data(), &cp, &h, &sr);
    values(r, key + "-poly", s, T, cp, h, sr, rt);
}

static AnyMap node(const string& text) { return AnyMap::fromYamlString(text); }

static void rebuilds(Run& r, Rng& g, const Spec& s, const SpeciesThermoInterpType& th, double lo, double hi) {
    r.near("min-temp@" + s.model, th.minTemp(), s.tlow, 1e-15);
    if (s.thigh < 1e299) r.near("max-temp@" + s.model, th.maxTemp(), s.thigh, 1e-15);
    else r.check("max-temp@" + s.model, th.maxTemp() > 1e299);
    r.near("ref-pressure@" + s.model, th.refPressure(), s.pref, 1e-14);
    // from reported coefficients
    vector<double> c(th.nCoeffs());
    size_t n; int type; double tl, thi, pr;
    th.reportParameters(n, type, tl, thi, pr, c.data());
    if (s.model == "piecewise-Gibbs") r.check("coeff-count@" + s.model, c.size() >= 2 * s.mu.size() + 2);
    r.near("report-tlow@" + s.model, tl, th.minTemp(), 0);
    r.near("report-thigh@" + s.model, thi, th.maxTemp(), 0);
    r.near("report-pref@" + s.model, pr, th.refPressure(), 0);
    r.check("report-type@" + s.model, type == th.reportType(), cat(type, " ", th.reportType()));
    std::unique_ptr<SpeciesThermoInterpType> b(newSpeciesThermoInterpType(type, tl, thi, pr, c.data()));
    for (int i = 0; i < 3; i++) evalSingle(r, "rebuilt-coeffs", s, *b, randT(g, s, lo, hi), 1e-11);
    // from generated input
    AnyMap p = th.parameters(g.p(0.5));
    p.setUnits(UnitSystem());
    p.applyUnits();
    auto b2 = newSpeciesThermo(p);
    for (int i = 0; i < 3; i++) evalSingle(r, "rebuilt-parameters", s, *b2, randT(g, s, lo, hi), 1e-11);
    // ... written out as text, in another unit system
    AnyMap doc;
    doc["thermo"] = th.parameters(true);
    UnitSystem us;
    us.setDefaults(g.p(0.5) ? std::map<string, string>{{"energy", "kJ"}, {"quantity", "mol"}}
                            : std::map<string, string>{{"energy", "cal"}, {"quantity", "mol"}, {"length", "cm"}});
    doc.setUnits(us);
    string text = doc.toYamlString();
    AnyMap back = AnyMap::fromYamlString(text);
    back.applyUnits();
    auto b3 = newSpeciesThermo(back["thermo"].as<AnyMap>());
    for (int i = 0; i < 2; i++) {
        double T = randT(g, s, lo, hi);
        if (s.boundary(T) || s.boundary(T * (1 + 1e-12)) ) continue;
        evalSingle(r, "rebuilt-text", s, *b3, T, 1e-10);
    }
    r.near("rebuilt-text-tlow@" + s.model, b3->minTemp(), th.minTemp(), 1e-13);
    r.near("rebuilt-text-pref@" + s.model, b3->refPressure(), th.refPressure(), 1e-13);
}

static void one(Run& r, size_t, Rng& g) {
    static const vector<string> models{"NASA7", "NASA9", "Shomate", "constant-cp", "piecewise-Gibbs"};
    double lo = g.uni(200, 320), hi = g.uni(1000, 3500);
    double pref = g.pick({OneAtm, 1e5, 3.3e5});
    size_t ns = g.i(1, 8);
    bool uniform = g.p(0.2);
    string um = g.pick(models), kind = g.pick({"ideal-gas", "ideal-gas", "ideal-condensed", "ideal-surface"});
    vector<Spec> sp;
    vector<string> ty;
    string y = "phases:\n- name: p\n  thermo: " + kind + "\n  species: [";
    for (size_t k = 0; k < ns; k++) y += (k ? ", S" : "S") + std::to_string(k);
    y += "]\n  elements: [H, O]\n  state: {T: 300, P: 1 atm}\n";
    if (kind == "ideal-surface") y += "  site-density: 2.0e-9 mol/cm^2\n";
    if (kind == "ideal-condensed") y += "  standard-concentration-basis: unity\n";
    y += "species:\n";
    auto entry = [&](size_t k, const string& t) {
        string e = "name: S" + std::to_string(k) + ", composition: {H: " + std::to_string(k + 1) + "}, thermo: " + t;
        if (kind == "ideal-condensed") e += ", equation-of-state: {model: constant-volume, molar-volume: 0.01}";
        return e;
    };
    string desc = kind;
    for (size_t k = 0; k < ns; k++) {
        string t;
        sp.push_back(randomSpec(g, uniform ? um : g.pick(models), pref, lo, hi, t));
        ty.push_back(t);
        y += "- {" + entry(k, t) + "}\n";
        desc += " " + t;
    }
    r.describe(desc.substr(0, 2000));
    r.sample(desc.substr(0, 400));
    // on its own
    for (size_t k = 0; k < ns; k++) {
        auto th = newSpeciesThermo(node("x: " + ty[k])["x"].as<AnyMap>());
        for (int i = 0; i < 4; i++) evalSingle(r, "single", sp[k], *th, randT(g, sp[k], lo, hi));
        rebuilds(r, g, sp[k], *th, lo, hi);
        // heat capacity is the slope of enthalpy and T times that of entropy
        double T = g.uni(lo, hi), cp, h, s, cpm, hm, sm, c0, d = 1e-3 * T;
        bool close = false;
        for (double b : sp[k].nodes()) if (b != 298.15 && std::fabs(b - T) < 3 * d) close = true;
        if (sp[k].model == "piecewise-Gibbs" && std::fabs(298.15 - T) < 3 * d) close = true;
        if (!close) {
            auto der = [&](double step, double& dh, double& ds) {
                th->updatePropertiesTemp(T + step, &cp, &h, &s);
                th->updatePropertiesTemp(T - step, &cpm, &hm, &sm);
                dh = (h * (T + step) - hm * (T - step)) / (2 * step);
                ds = (s - sm) / (2 * step) * T;
            };
            double a1, b1, a2, b2;
            der(d, a1, b1); der(d / 2, a2, b2);
            double ha = (4 * a2 - a1) / 3, sa = (4 * b2 - b1) / 3;
            th->updatePropertiesTemp(T, &c0, &h, &s);
            Val v = sp[k].eval(T, false);
            r.near("cp-is-dh/dT@" + sp[k].model, ha, c0, 0, 1e-7 * v.sc + 1e-11 * v.sh * T / d + std::fabs(a2 - a1) * 1e-2);
            r.near("cp-is-Tds/dT@" + sp[k].model, sa, c0, 0, 1e-7 * v.sc + 1e-11 * v.ss * T / d + std::fabs(b2 - b1) * 1e-2);
        }
    }
    // in a phase
    AnyMap root = AnyMap::fromYamlString(y);
    auto ph = newThermo(root["phases"].getMapWhere("name", "p"), root);
    bool surf = kind == "ideal-surface";
    vector<double> cp(ns), h(ns), s(ns);
    auto bulk = [&](const string& key) {
        for (int rep = 0; rep < 2; rep++) {
            double T = randT(g, sp[g.idx(ns)], lo, hi);
            ph->setState_TP(T, ph->refPressure());
            std::fill(cp.begin(), cp.end(), NAN); h = cp; s = cp;
            if (surf) { ph->getCp_R(cp.data()); ph->getEnthalpy_RT(h.data()); ph->getEntropy_R(s.data()); }
            else { ph->getEnthalpy_RT_ref(h.data()); ph->getCp_R_ref(cp.data()); ph->getEntropy_R_ref(s.data()); }
            for (size_t k = 0; k < ns; k++) {
                // (surfaces scale the reference chemical potential per site)
                values(r, key, sp[k], T, cp[k], h[k], s[k], RT, cat("species ", k, " of ", kind));
                double a = NAN, b = NAN, c = NAN;
                ph->speciesThermo().update_single(k, T, &a, &b, &c);
                values(r, key + "-one", sp[k], T, a, b, c, RT, cat("species ", k));
                r.state(cat(sp[k].model, sp[k].bounds.size() + sp[k].mu.size(), key, int(T / 10), kind));
            }
        }
    };
    r.near("phase-ref-pressure@" + kind, ph->refPressure(), pref, 1e-14);
    double tl = 0, th = 1e300;
    for (auto& q : sp) { tl = std::max(tl, q.tlow); th = std::min(th, q.thigh); }
    r.near("phase-min-temp@" + kind, ph->minTemp(), tl, 1e-15);
    if (th < 1e299) r.near("phase-max-temp@" + kind, ph->maxTemp(), th, 1e-15);
    bulk("bulk");
    // history of changes
    vector<vector<double>> none;
    for (int step = 0, nst = g.i(0, 8); step < nst; step++) {
        size_t k = g.idx(ns);
        int op = g.i(0, 3);
        if (op <= 1) {
            if (!sp[k].shiftable()) {
                bool threw = false;
                try { ph->modifyOneHf298SS(k, 1e6); } catch (CanteraError&) { threw = true; }
                r.check("unsupported-hf-reported@" + sp[k].model, threw);
                bulk("after-refused-hf");
                continue;
            }
            double want = g.p(0.2) ? sp[k].h298() : g.uni(-6e8, 6e8);
            Val v = sp[k].eval(298.15, false);
            r.near("reported-hf@" + sp[k].model, ph->Hf298SS(k), sp[k].h298(), 0, 1e-12 * v.sh * R * 298.15);
            ph->modifyOneHf298SS(k, want);
            r.near("hf-as-set@" + sp[k].model, ph->Hf298SS(k), want, 0, 1e-12 * (v.sh * R * 298.15 + std::fabs(want)));
            sp[k].dh += want - sp[k].h298();
            bulk("after-set-hf");
            rebuilds(r, g, sp[k], *ph->species(k)->thermo, lo, hi);
        } else if (op == 2) {
            bool all = g.p(0.25), can = true;
            for (auto& q : sp) can = can && q.shiftable();
            if (all && can) { ph->resetHf298(); for (auto& q : sp) q.dh = 0; }
            else if (sp[k].shiftable()) { ph->resetHf298(k); sp[k].dh = 0; }
            bulk("after-reset-hf");
        } else {
            string t;
            Spec n = randomSpec(g, sp[k].model, pref, lo * 0.2, hi * 1.5, t);
            // replaced species may not narrow the phase's range, and a replacement's
            // temperature range has to include the phase's
            if (n.tlow > ph->minTemp() || n.thigh < ph->maxTemp()) continue;
            if (n.model == "piecewise-Gibbs" || n.model == "constant-cp" || n.tlow <= ph->minTemp()) {
                shared_ptr<Species> spec = newSpecies(node("x: {" + entry(k, t) + "}")["x"].as<AnyMap>());
                ph->modifySpecies(k, spec);
                sp[k] = n;
                bulk("after-modify-species");
            }
        }
    }
}

int main(int argc, char** argv) {
    Run r = parse(argc, argv);
    ctInit();
    return drive(r, one);
}
