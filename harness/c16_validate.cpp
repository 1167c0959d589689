// C16: mechanisms with one deliberate fault are rejected, those without are accepted; with skip options
// exactly the offending reactions are left out; equations are parsed into and printed from one stoichiometry.
#include "gen.h"
#include "cantera/kinetics/Reaction.h"
#include "cantera/kinetics/Arrhenius.h"
#include "cantera/kinetics/Falloff.h"

using namespace vh;

typedef vector<std::pair<string, double>> Side;
static string sideText(const Side& v) {
    string s;
    for (auto& [n, c] : v) s += cat(s.empty() ? "" : " + ", c == 1 ? string() : cat(c, " "), n);
    return s;
}
// outcome of loading: accepted?
static bool loads(const string& yaml, const string& phase, string* msg, shared_ptr<Solution>* out = nullptr) {
    try {
        AnyMap root = AnyMap::fromYamlString(yaml);
        shared_ptr<Solution> s;
        if (phase == "surf") { auto gas = phaseFrom(root, "gas"); s = phaseFrom(root, "surf", {gas}); }
        else s = phaseFrom(root, phase);
        if (out) *out = s;
        return true;
    } catch (CanteraError& e) {
        *msg = e.what();
        return false;
    }
}
static void expect(Run& r, const string& key, const string& yaml, const string& phase, bool accept, shared_ptr<Solution>* out = nullptr) {
    string msg;
    if (getenv("DUMPDOC")) std::ofstream("/tmp/dumpdoc.yaml") << yaml;
    bool ok = loads(yaml, phase, &msg, out);
    r.count(accept ? "expected-accept" : "expected-reject");
    if (ok != accept) r.describe("document " + yaml);
    r.check(key, ok == accept, accept ? "refused: " + msg : string("accepted"));
    if (ok) r.state(std::hash<string>()(yaml));
    else r.state(std::hash<string>()(yaml) ^ 1);
}

// head text ends before the reaction list; "reactions: [gas-reactions]" also matches, so cut at line start
static string docHead(const GMech& m) {
    size_t p = m.yaml.find("\ngas-reactions:");
    return m.yaml.substr(0, p + 1);
}
static string docWith(const GMech& m, const vector<string>& gas, const vector<string>& surf) {
    string y = docHead(m) + (gas.empty() ? "gas-reactions: []\n" : "gas-reactions:\n");
    for (auto& s : gas) y += s;
    y += surf.empty() ? "surf-reactions: []\n" : "surf-reactions:\n";
    for (auto& s : surf) y += s;
    // species defined in the document itself
    size_t p = m.yaml.find("\nspecies:\n");
    if (p != string::npos) y += m.yaml.substr(p + 1);
    return y;
}
static string replaceEq(const string& y, const string& from, const string& to) {
    size_t p = y.find("\"" + from + "\"");
    return p == string::npos ? y : y.substr(0, p) + "\"" + to + "\"" + y.substr(p + from.size() + 2);
}
static string arrowOf(const string& eq) { for (string a : {" <=> ", " => ", " = "}) if (eq.find(a) != string::npos) return a; return ""; }
static string flag(const string& y) { return y + "  duplicate: true\n"; }

static void mutated(Run& r, Rng& g, bool surf) {
    GMech m = randomMechanism(g, int(g.i(1, 6)), surf ? int(g.i(1, 5)) : 0, "", false);
    if (m.gas.empty() || (surf && m.surf.empty())) return;
    string ph = surf ? "surf" : "gas";
    vector<string> gy, sy;
    for (auto& x : m.gas) gy.push_back(x.yaml);
    for (auto& x : m.surf) sy.push_back(x.yaml);
    auto& list = surf ? m.surf : m.gas;
    auto& ys = surf ? sy : gy;
    r.describe("document " + m.yaml);
    expect(r, "valid", docWith(m, gy, sy), ph, true);
    size_t q = g.idx(list.size());
    GRx x = list[q];
    auto keep = ys;
    string arrow = arrowOf(x.equation);
    size_t p = x.equation.find(arrow);
    string L = x.equation.substr(0, p), R = x.equation.substr(p + arrow.size());
    bool tb = x.hasM;
    // element imbalance
    {
        string extra = surf ? g.pick(m.surfNames) : g.pick(m.gasNames);
        string eq;
        switch (g.i(0, 2)) {
        case 0: eq = L + arrow + extra + " + " + R; break;
        case 1: eq = extra + " + " + L + arrow + R; break;
        default: eq = L + arrow + "2 " + extra + " + " + R; break;
        }
        ys[q] = replaceEq(keep[q], x.equation, eq);
        expect(r, cat("unbalanced@", tb ? "third-body" : x.type), docWith(m, gy, sy), ph, false);
        ys = keep;
    }
    // small imbalances of fractional stoichiometry; reversible reactions and automatic third bodies need integers
    if (x.type == "elementary" && !x.rev && !x.custom) {
        for (double d : {3e-3, 3e-5}) {
            Side rs, ps;
            for (auto& [s, c] : x.r) rs.push_back({s, c});
            for (auto& [s, c] : x.p) ps.push_back({s, c});
            // the only product scales the whole side
            for (auto& [s, c] : ps) c *= 1 + d;
            ys[q] = replaceEq(keep[q], x.equation, sideText(rs) + " => " + sideText(ps));
            expect(r, d > 1e-4 ? "unbalanced-slightly" : "balanced-nearly", docWith(m, gy, sy), ph, d < 1e-4);
        }
        ys = keep;
    }
    // undeclared species
    {
        ys[q] = replaceEq(keep[q], x.equation, g.p(0.5) ? L + arrow + "NOSUCH + " + R : "NOSUCH + " + L + arrow + R);
        expect(r, "undeclared-species", docWith(m, gy, sy), ph, false);
        if (!surf) {
            // left out under declared-species
            string y = docWith(m, gy, sy);
            size_t w = y.find("reactions: [gas-reactions]");
            y.replace(w, 26, "reactions: [{gas-reactions: declared-species}]");
            shared_ptr<Solution> s;
            expect(r, "skip-undeclared", y, ph, true, &s);
            if (s) r.check("skip-exactly", s->kinetics()->nReactions() == m.gas.size() - 1, cat(s->kinetics()->nReactions(), " of ", m.gas.size()));
        }
        ys = keep;
    }
    // duplicates
    {
        vector<string> form = {keep[q]};
        // sides written in the other order
        if (x.r.size() > 1 && !tb) {
            auto rr = x.r;
            std::reverse(rr.begin(), rr.end());
            form.push_back(replaceEq(keep[q], x.equation, Gen::side(rr, "") + arrow + R));
        }
        if (x.rev && x.type == "elementary") form.push_back(replaceEq(keep[q], x.equation, R + arrow + L));
        if (x.type == "elementary" && !x.custom) {
            Side a, b;
            for (auto& [s, c] : x.r) a.push_back({s, c * 2});
            for (auto& [s, c] : x.p) b.push_back({s, c * 2});
            form.push_back(replaceEq(keep[q], x.equation, sideText(a) + arrow + sideText(b)));
        }
        string copy = g.pick(form);
        size_t at = g.idx(ys.size() + 1);
        auto put = [&](vector<string> v, const string& s) { v.insert(v.begin() + at, s); return v; };
        // a vanishing third body never collides with itself
        bool overlaps = !tb;
        if (tb) for (auto& n : m.gasNames) { auto it = x.eff.find(n); double e = it == x.eff.end() ? x.defEff : it->second; overlaps |= e != 0; }
        bool undecl = overlaps;
        ys = put(keep, copy);
        expect(r, "duplicate-undeclared", docWith(m, gy, sy), ph, !undecl);
        ys = put(keep, flag(copy));
        expect(r, "duplicate-half-declared", docWith(m, gy, sy), ph, false);
        ys = keep;
        ys[q] = flag(ys[q]);
        auto one = ys;
        expect(r, "duplicate-unmatched", docWith(m, gy, sy), ph, false);
        ys = put(one, flag(copy));
        expect(r, "duplicate-declared", docWith(m, gy, sy), ph, true);
        ys = put(ys, flag(copy));
        expect(r, "triplicate-declared", docWith(m, gy, sy), ph, true);
        ys = put(put(one, flag(copy)), copy);
        expect(r, "triplicate-half-declared", docWith(m, gy, sy), ph, !undecl);
        // opposite irreversible reactions are distinct
        if (x.type == "elementary" && !x.rev && !x.custom) {
            ys = put(keep, replaceEq(keep[q], x.equation, R + arrow + L));
            expect(r, "opposite-irreversible", docWith(m, gy, sy), ph, true);
        }
        ys = keep;
        // two reactions of the same species, each declared a duplicate
        if (list.size() > 1) {
            size_t o = (q + 1) % list.size();
            ys[q] = flag(ys[q]);
            ys[o] = flag(ys[o]);
            expect(r, "duplicate-mismatched", docWith(m, gy, sy), ph, false);
        }
        ys = keep;
    }
    // undeclared third bodies
    if (!surf && tb && (x.type == "three-body" || x.type == "falloff" || x.type == "chemically-activated") && x.equation.find("M") != string::npos && !x.eff.empty() && keep[q].find("efficiencies: {") != string::npos) {
        ys[q] = keep[q];
        ys[q].replace(ys[q].find("efficiencies: {"), 15, "efficiencies: {NOSUCH: 2, ");
        expect(r, "undeclared-third-body", docWith(m, gy, sy), ph, false);
        string y = docWith(m, gy, sy);
        size_t w = y.find("  kinetics: bulk");
        y.insert(w, "  skip-undeclared-third-bodies: true\n");
        shared_ptr<Solution> s;
        expect(r, "skip-third-body", y, ph, true, &s);
        if (s) r.check("skip-third-body-keeps", s->kinetics()->nReactions() == m.gas.size());
        ys = keep;
    }
    if (!surf && x.type == "linear-Burke") {
        ys[q] = keep[q];
        size_t w = ys[q].find("  - name: ", ys[q].find("  - name: M") + 5);
        size_t e = ys[q].find("\n", w);
        ys[q].replace(w, e - w, "  - name: NOSUCH");
        expect(r, "undeclared-collider", docWith(m, gy, sy), ph, false);
        string y = docWith(m, gy, sy);
        y.insert(y.find("  kinetics: bulk"), "  skip-undeclared-third-bodies: true\n");
        shared_ptr<Solution> s;
        expect(r, "skip-collider", y, ph, true, &s);
        if (s) {
            s->thermo()->setState_TP(1000, OneAtm);
            vector<double> k(s->kinetics()->nReactions());
            s->kinetics()->getFwdRateConstants(k.data());
            r.check("skip-collider-rate", std::isfinite(k[q]), vec(k));
        }
        ys = keep;
    }
    // a whole phase with fewer species
    if (!surf) {
        std::set<string> gone;
        int n = int(g.i(1, 3));
        for (int i = 0; i < n; i++) gone.insert(g.pick(m.gasNames));
        auto uses = [&](const GRx& z, bool& third) {
            bool u = false;
            third = false;
            for (auto& [s, c] : z.r) u |= gone.count(s) > 0;
            for (auto& [s, c] : z.p) u |= gone.count(s) > 0;
            for (auto& [s, c] : z.orders) u |= gone.count(s) > 0;
            for (auto& [s, c] : z.eff) third |= gone.count(s) > 0;
            return u;
        };
        bool anySpecies = false, anyThird = false, lb = false;
        size_t left = 0, leftSkip3 = 0;
        for (auto& z : m.gas) {
            bool t, u = uses(z, t);
            lb |= z.type == "linear-Burke";
            bool explicit3 = z.hasM && z.defEff == 0 && z.eff.size() == 1 && z.equation.find("M") == string::npos;
            anySpecies |= u;
            anyThird |= !u && t;
            if (!u) left++;
            if (!u && !(explicit3 && t)) leftSkip3++;
        }
        if (!lb) {
            string names;
            for (auto& s : m.gasNames) if (!gone.count(s)) names += (names.empty() ? "" : ", ") + (s == "NO" || s == "N" ? "\"" + s + "\"" : s);
            string y = docWith(m, gy, sy);
            size_t a = y.find("gri30.yaml/species: [") + 21, b = y.find("]", a);
            y.replace(a, b - a, names);
            expect(r, "fewer-species", y, ph, !anySpecies && !anyThird);
            string z = y;
            size_t w = z.find("reactions: [gas-reactions]");
            z.replace(w, 26, "reactions: [{gas-reactions: declared-species}]");
            shared_ptr<Solution> s;
            expect(r, "fewer-species-declared", z, ph, !anyThird, &s);
            if (s) r.check("skip-exactly", s->kinetics()->nReactions() == left, cat(s->kinetics()->nReactions(), " want ", left));
            z.insert(z.find("  kinetics: bulk"), "  skip-undeclared-third-bodies: true\n");
            s.reset();
            expect(r, "fewer-species-declared-skip-third", z, ph, true, &s);
            if (s) {
                r.check("skip-exactly", s->kinetics()->nReactions() == leftSkip3, cat(s->kinetics()->nReactions(), " want ", leftSkip3));
                // and the ones left behave
                s->thermo()->setState_TP(1200, OneAtm);
                vector<double> k(s->kinetics()->nReactions());
                s->kinetics()->getNetRatesOfProgress(k.data());
            }
        }
    }
}

// random reactions among ions or among surface species with sites, judged by own sums
static void composed(Run& r, Rng& g) {
    bool surf = g.p(0.5);
    std::map<string, std::map<string, double>> comp;
    vector<string> pool;
    string head;
    if (!surf) {
        static const AnyMap ion = AnyMap::fromYamlFile(findData("gri30_ion.yaml"));
        AnyMap c = ion;
        pool = {"H3O+", "HCO+", "E", "H2O", "H", "O2", "CO", "HCO", "OH", "O", "H2", "CO2"};
        static const AnyMap gri = AnyMap::fromYamlFile(findData("gri30.yaml"));
        AnyMap d = gri;
        for (auto& n : pool) for (auto& [e, v] : (n.back() == '+' || n == "E" ? c : d)["species"].getMapWhere("name", n)["composition"].asMap<double>()) comp[n][e] = v;
        head = "phases:\n- name: gas\n  thermo: ideal-gas\n  elements: [H, O, C, E]\n  species: [{gri30_ion.yaml/species: [H3O+, HCO+, E]}, {gri30.yaml/species: [H2O, H, O2, CO, HCO, OH, O, H2, CO2]}]\n  kinetics: bulk\n  reactions: [rx]\n";
    } else {
        string sp, names;
        int n = int(g.i(4, 8));
        for (int i = 0; i < n; i++) {
            string nm = cat("S", i);
            int h = int(g.i(0, 2)), o = int(g.i(0, 1)), q = int(g.i(-1, 1));
            double sites = g.pick({1.0, 1.0, 2.0, 3.0, 0.5});
            if (g.p(0.7)) q = 0;
            comp[nm] = {{"H", h}, {"O", o}, {"@", sites}, {"E", -q}};
            pool.push_back(nm);
            names += (i ? ", " : "") + nm;
            sp += cat("- {name: ", nm, ", composition: {", h ? cat("H: ", h) : "", h && o ? ", " : "", o ? cat("O: ", o) : "", (h || o) && q ? ", " : "", q ? cat("E: ", -q) : "", "}, sites: ", sites,
                      ", thermo: {model: constant-cp, h0: 0, s0: 0, cp0: 0}}\n");
        }
        for (string n2 : {"H2", "H2O", "O2", "H"}) { pool.push_back(n2); }
        comp["H2"] = {{"H", 2}}; comp["H2O"] = {{"H", 2}, {"O", 1}}; comp["O2"] = {{"O", 2}}; comp["H"] = {{"H", 1}};
        head = "phases:\n- name: gas\n  thermo: ideal-gas\n  species: [{gri30.yaml/species: [H2, H2O, O2, H]}]\n- name: surf\n  thermo: ideal-surface\n  adjacent-phases: [gas]\n  elements: [H, O, E]\n  species: [" + names +
               "]\n  kinetics: surface\n  reactions: [rx]\n  site-density: 1e-8\nspecies:\n" + sp;
    }
    // sides drawn until elements nearly match
    for (int tries = 0; tries < 300; tries++) {
        std::map<string, double> a, b, net, mag;
        int na = int(g.i(1, 3)), nb = int(g.i(1, 3));
        for (int i = 0; i < na; i++) a[g.pick(pool)] += 1;
        for (int i = 0; i < nb; i++) b[g.pick(pool)] += 1;
        bool common = false;
        for (auto& [s, c] : a) common |= b.count(s) > 0;
        if (common) continue;
        if (surf) { bool any = false; for (auto& [s, c] : a) any |= s[0] == 'S'; if (!any) continue; }
        for (auto& [s, c] : a) for (auto& [e, v] : comp[s]) { net[e] -= c * v; mag[e] += std::fabs(c * v); }
        for (auto& [s, c] : b) for (auto& [e, v] : comp[s]) { net[e] += c * v; mag[e] += std::fabs(c * v); }
        int wrong = 0;
        string which;
        for (auto& [e, v] : net) if (std::fabs(v) > 1e-9) { wrong++; which = e == "@" ? "sites" : e == "E" ? "charge" : "element"; }
        if (wrong > 1) continue;
        if (wrong == 1 && which == "element" && g.p(0.9)) continue;
        Side sa(a.begin(), a.end()), sb(b.begin(), b.end());
        g.shuffle(sa);
        g.shuffle(sb);
        string eq = sideText(sa) + (g.p(0.5) ? " <=> " : " => ") + sideText(sb);
        string y = head + "rx:\n- {equation: \"" + eq + "\", rate-constant: {A: 1, b: 0, Ea: 0}}\n";
        expect(r, wrong ? "unbalanced-" + which : surf ? "balanced-surface" : "balanced-ions", y, surf ? "surf" : "gas", !wrong);
        if (g.p(0.25)) return;
    }
}

// text of a reaction into a stoichiometry and back
static void equations(Run& r, Rng& g) {
    static const vector<string> pool = {"H2", "O2", "H2O(L)", "Ca+2", "e-", "C*CC", "N2*", "OH(S)", "1-C4H8", "CH2(S)", "A_b", "Li[elyt]", "AR", "NO", "X.Y", "C2H5O2,z", "V(i)", "b:c", "O+", "(S)x", "M2", "a=b"};
    Side a, b;
    std::map<string, double> ma, mb;
    auto coef = [&] { return g.p(0.6) ? 1.0 : g.p(0.5) ? double(g.i(2, 12)) : g.pick({0.5, 1.5, 0.25, 2.75, 0.1, 0.333333, 1e-3, 1.0 / 3, 12.345678901234567}); };
    int n = int(g.i(1, 4));
    for (int i = 0; i < n; i++) { string s = g.pick(pool); double c = coef(); a.push_back({s, c}); ma[s] += c; }
    n = int(g.i(1, 4));
    for (int i = 0; i < n; i++) { string s = g.pick(pool); if (ma.count(s)) continue; double c = coef(); b.push_back({s, c}); mb[s] += c; }
    if (b.empty()) return;
    string tail, ar = g.pick({string("<=>"), string("=>"), string("=")});
    int third = int(g.i(0, 5));
    if (third == 1) tail = " + M";
    if (third == 2) tail = " (+M)";
    if (third == 3) tail = " (+ M)";
    auto sp = [&] { return string(size_t(g.i(1, 3)), ' '); };
    auto text = [&](const Side& v) {
        string s;
        for (auto& [nm, c] : v) {
            if (!s.empty()) s += sp() + "+" + sp();
            if (c != 1 || g.p(0.1)) { std::ostringstream o; o.precision(17); o << c; s += o.str() + sp(); }
            s += nm;
        }
        return s;
    };
    string eq = text(a) + tail + sp() + ar + sp() + text(b) + tail;
    if (g.p(0.2)) eq = " " + eq + " ";
    r.describe("equation " + eq);
    r.state(std::hash<string>()(eq));
    shared_ptr<ReactionRate> rate = make_shared<ArrheniusRate>(1, 0, 0);
    if (third >= 2 && third <= 3) rate = make_shared<LindemannRate>();
    Reaction x(eq, rate);
    auto same = [&](const string& key, const Composition& got, const std::map<string, double>& want, const string& txt, double tol) {
        bool ok = got.size() == want.size();
        for (auto& [n, c] : want) { auto it = got.find(n); ok = ok && it != got.end() && std::fabs(it->second - c) <= tol * c; }
        string g2;
        for (auto& [n, c] : got) g2 += cat(n, ":", c, " ");
        r.check(key, ok, "'" + txt + "' gives " + g2);
    };
    same("equation-reactants", x.reactants, ma, eq, 1e-14);
    same("equation-products", x.products, mb, eq, 1e-14);
    r.check("equation-reversible", x.reversible == (ar != "=>"), eq);
    r.check("equation-third-body", x.usesThirdBody() == (third >= 1 && third <= 3), eq);
    string printed = x.equation();
    Reaction y(printed, rate);
    same("printed-reactants", y.reactants, ma, printed, 1e-14);
    same("printed-products", y.products, mb, printed, 1e-14);
    r.check("printed-reversible", y.reversible == x.reversible, printed);
    r.check("printed-third-body", y.usesThirdBody() == x.usesThirdBody(), printed);
    r.check("printed-stable", y.equation() == printed, printed + " / " + y.equation());
    if (x.thirdBody() && y.thirdBody()) r.check("printed-mass-action", x.thirdBody()->mass_action == (third == 1) && y.thirdBody()->mass_action == (third == 1), printed);
}

int main(int argc, char** argv) {
    Run r = parse(argc, argv);
    ctInit();
    return drive(r, [](Run& r, size_t i, Rng& g) {
        switch (i % 6) {
        case 0: case 1: mutated(r, g, false); break;
        case 2: mutated(r, g, true); break;
        case 3: composed(r, g); break;
        default: for (int k = 0; k < 20; k++) equations(r, g);
        }
        if (i < 4) r.sample(r.desc.substr(0, 500));
    });
}
