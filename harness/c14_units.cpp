// C14: unit conversion is dimensionally exact.
//
// Unit expressions are generated from a table of the documented units, written here
// independently, so their SI value, dimensions and the number of pressure and energy
// units in them are known. Conversions between expressions, to and from default unit
// systems, of activation energies and of values in (nested) input maps are compared
// with the products of those factors.
#include "ct.h"
#include "cantera/base/Units.h"
using namespace vh;

struct U { double f = 1; double d[6] = {0, 0, 0, 0, 0, 0}; double p = 0, e = 0; };
static const double NA = 6.02214076e26, QE = 1.602176634e-19, R = 6.02214076e26 * 1.380649e-23;
struct Known { string n; U u; };
static U mk(double f, double M, double L, double T, double K = 0, double A = 0, double Q = 0, double p = 0, double e = 0) {
    U u; u.f = f; double d[6] = {M, L, T, K, A, Q}; std::copy(d, d + 6, u.d); u.p = p; u.e = e; return u;
}
static const vector<Known>& known() {
    static const vector<Known> k{
        {"kg", mk(1, 1, 0, 0)}, {"g", mk(1e-3, 1, 0, 0)},
        {"m", mk(1, 0, 1, 0)}, {"micron", mk(1e-6, 0, 1, 0)}, {"angstrom", mk(1e-10, 0, 1, 0)},
        {"s", mk(1, 0, 0, 1)}, {"min", mk(60, 0, 0, 1)}, {"hr", mk(3600, 0, 0, 1)},
        {"K", mk(1, 0, 0, 0, 1)}, {"A", mk(1, 0, 0, 0, 0, 1)},
        {"mol", mk(1e-3, 0, 0, 0, 0, 0, 1)}, {"gmol", mk(1e-3, 0, 0, 0, 0, 0, 1)}, {"mole", mk(1e-3, 0, 0, 0, 0, 0, 1)},
        {"kmol", mk(1, 0, 0, 0, 0, 0, 1)}, {"kgmol", mk(1, 0, 0, 0, 0, 0, 1)}, {"molec", mk(1 / NA, 0, 0, 0, 0, 0, 1)},
        {"J", mk(1, 1, 2, -2, 0, 0, 0, 0, 1)}, {"cal", mk(4.184, 1, 2, -2, 0, 0, 0, 0, 1)}, {"erg", mk(1e-7, 1, 2, -2, 0, 0, 0, 0, 1)},
        {"eV", mk(QE, 1, 2, -2, 0, 0, 0, 0, 1)},
        {"N", mk(1, 1, 1, -2)}, {"dyn", mk(1e-5, 1, 1, -2)},
        {"Pa", mk(1, 1, -1, -2, 0, 0, 0, 1)}, {"atm", mk(101325, 1, -1, -2, 0, 0, 0, 1)}, {"bar", mk(1e5, 1, -1, -2, 0, 0, 0, 1)},
        {"liter", mk(1e-3, 0, 3, 0)}, {"L", mk(1e-3, 0, 3, 0)}, {"l", mk(1e-3, 0, 3, 0)}, {"cc", mk(1e-6, 0, 3, 0)},
        {"ohm", mk(1, 1, 2, -3, 0, -2)}, {"V", mk(1, 1, 2, -3, 0, -1)}, {"coulomb", mk(1, 0, 0, 1, 0, 1)}};
    return k;
}
static const vector<std::pair<string, double>> PRE{{"k", 1e3}, {"m", 1e-3}, {"c", 1e-2}, {"u", 1e-6}, {"M", 1e6}, {"k", 1e3}, {"m", 1e-3}, {"Y", 1e24}, {"Z", 1e21}, {"E", 1e18}, {"P", 1e15}, {"T", 1e12}, {"G", 1e9}, {"M", 1e6},
    {"k", 1e3}, {"h", 1e2}, {"d", 1e-1}, {"c", 1e-2}, {"m", 1e-3}, {"u", 1e-6}, {"n", 1e-9}, {"p", 1e-12}, {"f", 1e-15}, {"a", 1e-18}, {"z", 1e-21}, {"y", 1e-24}};
static bool isKnown(const string& s) { for (auto& k : known()) if (k.n == s) return true; return s.empty() || s == "1" || s == "C"; }
static U times(U a, const U& b, double x) {
    a.f *= std::pow(b.f, x);
    for (int i = 0; i < 6; i++) a.d[i] += x * b.d[i];
    a.p += x * b.p; a.e += x * b.e;
    return a;
}
static bool same(const U& a, const U& b) { return std::equal(a.d, a.d + 6, b.d); }

// one unit with or without prefix; k = index into the table
static string single(Rng& g, size_t k, U* u, bool prefix = true) {
    *u = known()[k].u;
    string n = known()[k].n;
    if (prefix && g.p(0.45)) {
        auto& [p, f] = g.pick(PRE);
        // a prefixed name that is itself a unit (min, kg, cm^...) means that unit
        if (!isKnown(p + n)) { u->f *= f; n = p + n; }
    }
    return n;
}
static string num(double x) {
    for (int p = 1; p < 18; p++) { char b[40]; snprintf(b, 40, "%.*g", p, x); if (strtod(b, nullptr) == x) return b; }
    return "0";
}
struct Term { string n; U u; double x; };
static string write(Rng& g, const vector<Term>& t, U* u, double factor = 1) {
    *u = U();
    u->f = factor;
    string s;
    if (factor != 1) s = (factor < 1 ? num(factor) : factor == 12.5 ? "12.5" : cat(long(factor))) + (g.p(0.5) ? " " : "");
    bool first = true;
    for (auto& q : t) {
        *u = times(*u, q.u, q.x);
        bool div = q.x < 0 ? g.p(0.7) : g.p(0.15);
        if (first && div) { if (factor == 1) s += "1"; if (g.p(0.5)) s += " "; }
        if (!first || div) s += string(g.p(0.5) ? " " : "") + (div ? "/" : "*") + (g.p(0.5) ? " " : "");
        double x = div ? -q.x : q.x;
        s += q.n;
        if (x != 1 || g.p(0.1)) s += "^" + num(x);
        first = false;
    }
    return s;
}
static vector<Term> terms(Rng& g, int n) {
    vector<Term> t;
    for (int i = 0; i < n; i++) {
        Term q;
        q.n = single(g, g.idx(known().size()), &q.u);
        q.x = g.p(0.8) ? double(g.pick({1, 1, -1, -1, 2, -2, 3, -3, 4})) : g.pick({0.5, -0.5, 1.5, -1.5, 0.25, 2.5});
        t.push_back(q);
    }
    return t;
}
// other names for the same dimensions: each term replaced by one of its kind
static vector<Term> alike(Rng& g, const vector<Term>& t) {
    vector<Term> o;
    for (auto& q : t) {
        Term c = q;
        for (int a = 0; a < 30; a++) {
            U u;
            string n = single(g, g.idx(known().size()), &u);
            if (same(u, q.u)) { c.n = n; c.u = u; break; }
        }
        o.push_back(c);
    }
    g.shuffle(o);
    return o;
}

struct Sys { UnitSystem s; double f[6] = {1, 1, 1, 1, 1, 1}; double ea = 1; bool explicitEa = false; std::map<string, string> names; };
static const char* DIM[6] = {"mass", "length", "time", "quantity", "pressure", "energy"};
static bool dimUnit(const U& u, int i) {
    static const U ref[6] = {mk(1, 1, 0, 0), mk(1, 0, 1, 0), mk(1, 0, 0, 1), mk(1, 0, 0, 0, 0, 0, 1), mk(1, 1, -1, -2), mk(1, 1, 2, -2)};
    return same(u, ref[i]);
}
static string unitFor(Rng& g, int i, double* f) {
    while (true) {
        U u;
        string n = single(g, g.idx(known().size()), &u);
        if (i == 4 && g.p(0.1)) { *f = 0.1; return "dyn/cm^2"; }
        if (dimUnit(u, i)) { *f = u.f; return n; }
    }
}
static string eaUnit(Rng& g, double* f) {
    U u;
    switch (g.i(0, 3)) {
    case 0: { double x = g.pick({1.0, 1.0, 1e-3, 1e3}); *f = R * x; return x == 1 ? "K" : x == 1e3 ? "kK" : "mK"; }
    case 1: { double x = g.pick({1.0, 1e-3, 1e-6, 1e3}); *f = QE * x * NA; return x == 1 ? "eV" : x == 1e3 ? "keV" : x == 1e-3 ? "meV" : "ueV"; }
    default: {
        double a, b;
        string n = unitFor(g, 5, &a);
        string m = unitFor(g, 3, &b);
        *f = a / b;
        return n + (g.p(0.5) ? "/" : " / ") + m;
    }
    }
}
static std::map<string, string> change(Rng& g, Sys* s) {
    std::map<string, string> m;
    for (int i = 0; i < 6; i++) if (g.p(0.4)) { m[DIM[i]] = unitFor(g, i, &s->f[i]); s->names[DIM[i]] = m[DIM[i]]; }
    if (g.p(0.25)) { m["activation-energy"] = eaUnit(g, &s->ea); s->explicitEa = true; s->names["activation-energy"] = m["activation-energy"]; }
    if (!s->explicitEa) s->ea = s->f[5] / s->f[3];
    return m;
}
static double sysFactor(const Sys& s, const U& u) {
    // SI value of one default unit of this dimension
    return std::pow(s.f[0], u.d[0] - u.p - u.e) * std::pow(s.f[1], u.d[1] + u.p - 2 * u.e) * std::pow(s.f[2], u.d[2] + 2 * u.p + 2 * u.e)
        * std::pow(s.f[3], u.d[5]) * std::pow(s.f[4], u.p) * std::pow(s.f[5], u.e);
}
static bool sane(double x) { return std::isfinite(x) && std::fabs(x) > 1e-70 && std::fabs(x) < 1e70; }
template <class F> static bool throws(F f) { try { f(); } catch (CanteraError&) { return true; } return false; }

int main(int argc, char** argv) {
    Run r = parse(argc, argv);
    ctInit();
    static const double tol = 1e-12;
    return drive(r, [](Run& r, size_t, Rng& g) {
        auto ta = terms(g, int(g.i(1, 4)));
        U a, b, c;
        double fa = g.p(0.15) ? g.pick({2.0, 12.5, 0.25, 100.0, 1.0e3, 0.001}) : 1;
        string sa = write(g, ta, &a, fa), sb = write(g, alike(g, ta), &b);
        string sc = write(g, terms(g, int(g.i(1, 3))), &c);
        Sys s;
        auto m0 = change(g, &s);
        if (g.p(0.6)) s.s.setDefaults(m0);
        else {
            // by unit name, in any order; activation energies cannot be given this way
            UnitSystem& t = s.s;
            for (auto& [k, v] : m0) { if (k == "activation-energy") t.setDefaultActivationEnergy(v); else t.setDefaults({v}); }
        }
        double v = g.logu(1e-6, 1e6) * (g.p(0.3) ? -1 : 1);
        r.describe(cat("units '", sa, "' '", sb, "' '", sc, "' value ", v));
        if (!sane(a.f) || !sane(b.f) || !sane(a.f / b.f)) { r.count("skipped-range"); return; }
        r.state(sa + "|" + sb);
        Units ua(sa), ub(sb);
        // parsing
        r.near("factor", ua.factor(), a.f, tol);
        const char* prim[6] = {"mass", "length", "time", "temperature", "current", "quantity"};
        for (int i = 0; i < 6; i++) r.near("dimension", ua.dimension(prim[i]), a.d[i], 0, 1e-12, prim[i]);
        // dimensions may differ by rounding if fractional exponents are combined
        bool exact = true;
        for (int i = 0; i < 6; i++) exact &= ua.dimension(prim[i]) == ub.dimension(prim[i]);
        UnitSystem si;
        const UnitSystem& us = g.p(0.5) ? si : s.s;
        if (exact) {
            r.check("compatible", ua.convertible(ub) && ub.convertible(ua));
            r.near("convert", us.convert(v, sa, sb), v * (a.f / b.f), tol);
            r.near("there-and-back", us.convert(us.convert(v, sa, sb), sb, sa), v, tol);
            r.near("convert-any", us.convert(AnyValue(num(v) + " " + sa), sb), v * (a.f / b.f), tol);
            r.check("accepts-negative-and-zero", us.convert(0.0, sa, sb) == 0);
        }
        // incompatible
        bool diff = false;
        for (int i = 0; i < 6; i++) diff |= std::fabs(a.d[i] - c.d[i]) > 1e-9;
        if (diff) {
            r.check("incompatible", throws([&] { us.convert(v, sa, sc); }) && throws([&] { us.convert(AnyValue(num(v) + " " + sa), sc); }) && !ua.convertible(Units(sc)), sc);
        }
        // products and powers
        if (sane(a.f * c.f)) {
            Units p = ua;
            p *= Units(sc);
            U q = times(a, c, 1);
            r.near("product", p.factor(), q.f, tol);
            for (int i = 0; i < 6; i++) r.near("product-dimension", p.dimension(prim[i]), q.d[i], 0, 1e-12);
        }
        double x = g.pick({2.0, -1.0, 0.5, -2.0, 3.0, 0.0});
        if (sane(std::pow(a.f, x))) {
            Units p = ua.pow(x);
            r.near("power", p.factor(), std::pow(a.f, x), 1e-11);
            for (int i = 0; i < 6; i++) r.near("power-dimension", p.dimension(prim[i]), x * a.d[i], 0, 1e-12);
        }
        // the printed form means the same
        {
            string str = ua.str();
            Units again(1);
            // factors printed with an exponent are not part of the grammar of unit strings
            if (str.substr(0, str.find(' ')).find('e') == npos) {
                again = Units(str);
                r.near("printed-factor", again.factor(), a.f, tol, 0, str);
                for (int i = 0; i < 6; i++) r.near("printed-dimension", again.dimension(prim[i]), a.d[i], 0, 1e-9, str);
            }
        }
        // default systems; several changes accumulate
        for (int k = 0; k < 2; k++) {
            double w = sysFactor(s, a);
            if (sane(w) && sane(w / a.f)) {
                string d = cat(k, " ", vec(vector<double>(s.f, s.f + 6)));
                r.near("default-to", s.s.convertTo(v, sa), v * w / a.f, 1e-11, 0, d);
                r.near("default-from", s.s.convertFrom(v, sa), v * a.f / w, 1e-11, 0, d);
                r.near("default-any", s.s.convert(AnyValue(v), sa), v * w / a.f, 1e-11, 0, d);
                vector<AnyValue> vv(2);
                vv[0] = v; vv[1] = num(v) + " " + sa;
                auto out = s.s.convert(vv, sa);
                r.near("default-list", out[0], v * w / a.f, 1e-11, 0, d);
                r.near("explicit-overrides-default", out[1], v, tol, 0, d);
                r.near("rate-coefficient", s.s.convertRateCoeff(AnyValue(v), ua), v * w / a.f, 1e-11, 0, d);
            }
            // activation energies
            double f1, f2;
            string e1 = eaUnit(g, &f1), e2 = eaUnit(g, &f2);
            if (sane(f1 / f2)) {
                r.near("activation", s.s.convertActivationEnergy(v, e1, e2), v * f1 / f2, tol, 0, e1 + " " + e2);
                r.near("activation-any", s.s.convertActivationEnergy(AnyValue(num(v) + " " + e1), e2), v * f1 / f2, tol, 0, e1 + " " + e2);
                r.near("activation-to", s.s.convertActivationEnergyTo(v, e1), v * s.ea / f1, tol, 0, e1);
                r.near("activation-from", s.s.convertActivationEnergyFrom(v, e1), v * f1 / s.ea, tol, 0, e1);
                r.near("activation-default", s.s.convertActivationEnergy(AnyValue(v), e1), v * s.ea / f1, tol, 0, e1);
            }
            bool isEa = same(a, mk(1, 1, 2, -2, 0, 0, -1)) || same(a, mk(1, 1, 2, -2)) || same(a, mk(1, 0, 0, 0, 1));
            if (!isEa) r.check("activation-incompatible", throws([&] { s.s.convertActivationEnergy(v, sa, "J/mol"); }) && throws([&] { s.s.convertActivationEnergy(v, "J/mol", sa); })
                && throws([&] { s.s.convertActivationEnergyTo(v, sa); }) && throws([&] { s.s.convertActivationEnergyFrom(v, sa); }));
            auto m = change(g, &s);
            s.s.setDefaults(m);
        }
        // wrong defaults are refused and leave the system as it is
        {
            int i = int(g.i(0, 5));
            if (!dimUnit(a, i)) {
                auto before = s.s.defaults();
                r.check("wrong-default", throws([&] { s.s.setDefaults(std::map<string, string>{{DIM[i], sa}}); }), DIM[i]);
                r.check("wrong-default-kept", s.s.defaults() == before);
            }
        }
        for (auto& [k, n] : s.names) { auto d = s.s.defaults(); r.check("defaults", d.count(k) && d[k] == n, k + " " + n); }
        // values of input maps under nested unit directives
        {
            string y;
            Sys t;
            int depth = int(g.i(1, 4));
            double total = 1;
            vector<Sys> at;
            for (int k = 0; k < depth; k++) {
                string in(2 * k, ' ');
                auto m = g.p(0.7) ? change(g, &t) : std::map<string, string>();
                if (!m.empty()) {
                    y += in + "units: {";
                    bool f = true;
                    for (auto& [d, n] : m) { y += string(f ? "" : ", ") + d + ": \"" + n + "\""; f = false; }
                    y += "}\n";
                }
                at.push_back(t);
                y += in + "a: " + num(v) + "\n" + in + "b: " + num(v) + " " + sa + "\n" + in + "v: [" + num(v) + ", " + num(v) + " " + sa + "]\n" + in + "list:\n" + in + "- {x: " + num(v) + "}\n";
                if (k + 1 < depth) y += in + "sub:\n";
            }
            (void) total;
            AnyMap root = AnyMap::fromYamlString(y);
            if (g.p(0.3)) { AnyMap copy = root; root = copy; }
            AnyMap* mp = &root;
            for (int k = 0; k < depth; k++) {
                double w = sysFactor(at[k], a);
                if (sane(w) && sane(w / a.f) && sane(a.f / w)) {
                    string d = cat("level ", k, " of\n", y);
                    r.near("map-default", mp->convert("a", sa), v * w / a.f, 1e-11, 0, d);
                    r.near("map-explicit", mp->convert("b", sb), exact ? v * a.f / b.f : mp->convert("b", sb), 1e-11, 0, d);
                    auto vv = mp->convertVector("v", sa);
                    r.near("map-list", vv[0], v * w / a.f, 1e-11, 0, d);
                    r.near("map-list-explicit", vv[1], v, 1e-11, 0, d);
                    r.near("map-in-list", (*mp)["list"].asVector<AnyMap>()[0].convert("x", sa), v * w / a.f, 1e-11, 0, d);
                    r.near("map-missing", mp->convert("nokey", sa, 3.25), 3.25, 0);
                    r.near("map-activation", mp->units().convertActivationEnergyTo(v, "J/kmol"), v * at[k].ea, 1e-11, 0, d);
                    // written in the same units and read back
                    AnyMap o;
                    o["units"] = AnyMap();
                    for (auto& [dn, n] : at[k].names) o["units"][dn] = n;
                    o["q"].setQuantity(v, ua);
                    o["ea"].setQuantity(v, "J/kmol", true);
                    UnitSystem os;
                    os.setDefaults(std::map<string, string>(at[k].names.begin(), at[k].names.end()));
                    o.setUnits(os);
                    o.applyUnits();
                    AnyMap back = AnyMap::fromYamlString(o.toYamlString());
                    r.near("written", back.convert("q", sa), v, 1e-11, 0, o.toYamlString() + d);
                    r.near("written-activation", back.units().convertActivationEnergy(back["ea"], "J/kmol"), v, 1e-11, 0, o.toYamlString() + d);
                }
                if (k + 1 < depth) mp = &(*mp)["sub"].as<AnyMap>();
            }
        }
    });
}
