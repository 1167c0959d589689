// C03: what an object reports depends on its state alone, not on how it got there.
#include "mechs.h"
using namespace vh;

struct Params {
    std::map<size_t, double> mult;
    AnyMap deriv;
    bool hasDeriv = false;
};

static string ops;

static void thermoOp(ThermoPhase& p, Rng& g, const std::function<void(double&, double&)>& tp, const std::function<void()>& comp, bool partial,
                     double& siteDensity) {
    double T, P;
    tp(T, P);
    int op = int(g.i(0, partial ? 11 : 3));
    auto* surf = dynamic_cast<SurfPhase*>(&p);
    auto X = [&] { vector<double> x(p.nSpecies()); p.getMoleFractions(x.data()); return x; };
    switch (op) {
    case 0: ops += " TP"; p.setState_TP(T, P); break;
    case 1: ops += " X,TP"; comp(); p.setState_TP(T, P); break;
    case 2: ops += " TP,X,TP"; p.setState_TP(T, P); comp(); p.setState_TP(p.temperature(), P); break;
    case 3: ops += " restore"; { vector<double> s(p.stateSize()); p.saveState(s); p.setState_TP(T, P); p.restoreState(s); } break;
    case 4: ops += " T"; p.setTemperature(T); break;
    case 5: ops += " P"; p.setPressure(P); break;
    case 6: ops += " X"; comp(); break;
    case 7: ops += " Y"; { vector<double> y(p.nSpecies()); comp(); p.getMassFractions(y.data()); p.setMassFractions(y.data()); } break;
    case 8: ops += " TPX"; { comp(); auto x = X(); p.setState_TPX(T, P, x.data()); } break;
    case 9: ops += " T(same)"; p.setTemperature(p.temperature()); break;
    case 10: if (p.isCompressible() && p.type() != "liquid-water-IAPWS95") { ops += " D"; p.setDensity(p.density() * g.uni(0.5, 1.3)); } else if (surf && g.p(0.3)) {
                 ops += " site"; siteDensity = surf->siteDensity() * g.uni(0.8, 1.2); surf->setSiteDensity(siteDensity); } break;
    case 11: if (surf) { ops += " covNoNorm"; auto x = randomX(g, p.nSpecies()); surf->setCoveragesNoNorm(x.data()); }
             else if (g.p(0.4)) { ops += " tinyT"; p.setTemperature(p.temperature() * (1 + 1e-7)); }
            else if (g.p(0.4) && p.isCompressible()) { ops += " tinyP"; p.setPressure(p.pressure() * (1 + 1e-7)); }
            else if (p.nSpecies() > 1) {
                ops += " tinyX";
                double was = p.pressure();
                auto x = X();
                x[g.idx(x.size())] += g.logu(1e-12, 1e-6);
                p.setMoleFractions(x.data());
                p.setPressure(was);
            }
            break;
    }
}

static void mechCase(Run& r, size_t i, Rng& g) {
    static std::map<string, shared_ptr<Solution>> used;
    const auto& ms = mechs();
    size_t im = i % ms.size();
    if (ms[im].big && !g.p(0.12)) im = g.idx(22);
    const MechSpec& m = ms[im].big && !g.p(0.5) ? ms[0] : ms[im];
    // transport models other than the file's own
    string tr = "-";
    bool gas = m.transport != "none" && !m.iface;
    static const vector<string> trs = {"mixture-averaged", "multicomponent", "unity-Lewis-number", "mixture-averaged-CK", "multicomponent-CK", "-"};
    if (gas && m.name != "air9") {
        static std::map<string, shared_ptr<Solution>> plain;
        auto& s0 = plain[m.name];
        if (!s0) s0 = freshMech(m);
        if (s0->transport() && s0->transport()->transportModel() != "none" && s0->transport()->transportModel() != "ionized-gas") tr = g.pick(trs);
    }
    string id = m.name + tr, K = "@" + m.name;
    auto& A = used[id];
    r.describe(m.name + " build");
    // explicit parameters are part of what the fresh object is given
    static std::map<string, Params> pars;
    Params& par = pars[id];
    if (!A || g.p(0.1)) {
        A = freshMech(m, tr);
        randomMechState(m, *A, g);
        par = Params();
    }
    auto& kin = *A->kinetics();
    auto phs = phasesOf(*A);
    ops = "";
    Print dump;
    int nops = int(g.i(1, 12));
    if (g.p(0.2)) { randomMechState(m, *A, g); ops += " random"; }
    for (int o = 0; o < nops; o++) {
        int what = int(g.i(0, 9));
        try {
        if (what < 4) {            // one phase of the mechanism changes
            ThermoPhase& p = *g.pick(phs);
            double sd = 0;
            bool special = p.type() == "binary-solution-tabulated" || p.type() == "lattice";
            thermoOp(p, g, [&](double& T, double& P) { T = g.p(0.5) ? g.uni(m.Tmin, m.Tmax) : phs[0]->temperature(); P = m.iface && !p.isCompressible() ? OneAtm : g.logu(m.Pmin, m.Pmax); },
                     [&] { randomBulk(p, g); }, !special && p.type() != "Redlich-Kwong", sd);
            if (sd > 0) { auto& s = dynamic_cast<SurfPhase&>(p); (void)s; par.mult[SIZE_MAX] = sd; }
            if (m.iface && g.p(0.3)) { ops += " phi"; p.setElectricPotential(g.uni(-0.5, 0.5)); }
        } else if (what == 4 && kin.nReactions()) {
            size_t k = g.idx(kin.nReactions());
            double f = g.pick({0.0, 0.5, 2.0, 1.0, 10.0});
            kin.setMultiplier(k, f);
            par.mult[k] = f;
            ops += cat(" mult", k, "=", f);
        } else if (what == 5 && !m.iface && g.p(0.5)) {
            AnyMap d;
            d["skip-third-bodies"] = g.p(0.5);
            d["skip-falloff"] = g.p(0.5);
            d["rtol-delta"] = 1e-8;
            kin.setDerivativeSettings(d);
            par.deriv = d; par.hasDeriv = true;
            ops += " deriv";
        } else if (what == 6 && m.iface && g.p(0.3)) {
            // all phases to a common temperature, as a reactor does
            double T = g.uni(m.Tmin, m.Tmax);
            for (auto* p : phs) p->setTemperature(T);
            ops += " allT";
        } else {                   // reads
            int nr = int(g.i(1, 4));
            for (int j = 0; j < nr; j++) {
                string nm;
                Print d;
                vector<vector<double>> before;
                for (auto* p : phs) { vector<double> s(p->stateSize()); p->saveState(s); before.push_back(s); }
                int kind = int(g.i(0, 2));
                if (kind == 0 || (kind == 2 && !A->transport())) kinQuantity(kin, g.idx(48), d, &nm);
                else if (kind == 1) thermoQuantity(*g.pick(phs), g.idx(51), d, &nm);
                else tranQuantity(*A->transport(), *A->thermo(), g.idx(12), d, &nm);
                ops += " read:" + nm;
                size_t q = 0;
                for (auto* p : phs) {
                    vector<double> s(p->stateSize());
                    p->saveState(s);
                    r.check("read-keeps-state" + K, s == before[q], cat(nm, " changed the state from ", vec(before[q]), " to ", vec(s)));
                    q++;
                }
            }
        }
        } catch (CanteraError& e) {
            r.count("op-refused");
            A.reset();
            pars.erase(id);
            return;
        }
    }
    // interfaces evaluate at one temperature
    if (m.iface) for (auto* p : phs) p->setTemperature(phs[0]->temperature());
    double T = phs[0]->temperature();
    string where = cat(m.name, " ", tr, " ops:", ops, " T=", T, " P=", phs[0]->pressure());
    r.describe(where);
    r.state(hashv({T, phs[0]->pressure(), double(im)}, std::hash<string>()(ops)));
    if (i < 2) r.sample(where);
    auto B = freshMech(m, tr);
    for (auto& [k, f] : par.mult) {
        if (k == SIZE_MAX) {
            auto pb = phasesOf(*B);
            for (size_t q = 0; q < pb.size(); q++)
                if (auto* s = dynamic_cast<SurfPhase*>(pb[q])) s->setSiteDensity(dynamic_cast<SurfPhase&>(*phs[q]).siteDensity());
        } else B->kinetics()->setMultiplier(k, f);
    }
    if (par.hasDeriv) B->kinetics()->setDerivativeSettings(par.deriv);
    restoreMech(*B, saveMech(*A));
    Print ref = mechPrint(*B);
    vector<double> xs(phs[0]->nSpecies());
    phs[0]->getMoleFractions(xs.data());
    bool nearPure = *std::max_element(xs.begin(), xs.end()) > 1 - 1e-6;
    auto phb = phasesOf(*B);
    // read the used object in a random order, some quantities twice
    int n = int(g.i(6, 24));
    for (int j = 0; j < n; j++) {
        string nm;
        Print d;
        int kind = int(g.i(0, 3));
        string pre;
        if (kind <= 1 || (kind == 3 && !A->transport())) { kinQuantity(kin, g.idx(48), d, &nm); pre = "k."; }
        else if (kind == 2) { size_t q = g.idx(phs.size()); thermoQuantity(*phs[q], g.idx(51), d, &nm); pre = cat("p", q, "."); }
        else { tranQuantity(*A->transport(), *A->thermo(), g.idx(12), d, &nm); pre = "t."; }
        for (auto& [k, v] : d) {
            // 0/0 in the limit of a pure species
            if (pre == "t." && nearPure && (k.find("Mix") != string::npos || k == "getMobilities")) continue;
            auto it = ref.find(pre + k);
            if (!r.check("history" + K + ":" + pre + k + "-available", it != ref.end(), "available from the used object only")) continue;
            comparePart(r, "history" + K, pre.substr(0, 1) + "." + k, v, it->second, ref, pre, T, m.iface ? 1e-6 : 1e-8);
        }
    }
    // reading again gives the identical value
    for (int j = 0; j < 4; j++) {
        string nm;
        Print d1, d2;
        size_t q = g.idx(48);
        kinQuantity(kin, q, d1, &nm);
        kinQuantity(kin, q, d2, &nm);
        for (auto& [k, v] : d1) {
            bool same = v.size() == d2[k].size();
            double scale = 0;   // numerical derivatives set the state again
            for (double x : v) if (std::isfinite(x)) scale = std::max(scale, std::fabs(x));
            for (size_t z = 0; same && z < v.size(); z++) same = v[z] == d2[k][z] || (std::isnan(v[z]) && std::isnan(d2[k][z])) || std::fabs(v[z] - d2[k][z]) < (k.find("_dd") != string::npos ? 1e-3 * scale : 1e-12 * std::fabs(v[z]));
            r.check("read-twice" + K, same, k);
        }
    }
    if (g.p(0.1)) { A.reset(); pars.erase(id); }
}

static void phaseCase(Run& r, size_t i, Rng& g) {
    static std::map<string, shared_ptr<ThermoPhase>> used;
    auto& cats = catalogue();
    const PhaseSpec& s = cats[i % cats.size()];
    if (s.name == "compound") return;   // C02 records that its saved state is incomplete
    string K = "@" + s.name;
    r.describe(s.name);
    auto& A = used[s.name];
    ops = "";
    if (!A || g.p(0.1)) A = newThermo(s.file, s.phase);
    double T, P;
    bool pure = isPure(s), eos = s.name[1] == 'k' || s.name[1] == 'r';
    int nops = int(g.i(1, 10));
    try {
        randomTP(s, g, T, P);
        randomComposition(s, *A, g);
        A->setState_TP(T, P);
        for (int o = 0; o < nops; o++) {
            if (g.p(0.45)) {
                double sd = 0;
                thermoOp(*A, g, [&](double& T, double& P) { randomTP(s, g, T, P); if (g.p(0.2)) T = A->temperature(); if (g.p(0.3)) P = A->pressure(); },
                         [&] { randomComposition(s, *A, g); }, !pure && !eos && s.comp != BINTAB && s.comp != COMPOUND, sd);
            } else {
                string nm;
                Print d;
                thermoQuantity(*A, g.idx(51), d, &nm);
                ops += " read:" + nm;
            }
        }
    } catch (CanteraError& e) {
        r.count("op-refused");
        A.reset();
        return;
    }
    T = A->temperature();
    string where = cat(s.name, " ops:", ops, " T=", T, " P=", A->pressure());
    r.describe(where);
    r.state(hashv({T, A->pressure(), double(i % cats.size())}, std::hash<string>()(ops)));
    auto B = newThermo(s.file, s.phase);
    if (auto* sa = dynamic_cast<SurfPhase*>(A.get())) dynamic_cast<SurfPhase&>(*B).setSiteDensity(sa->siteDensity());
    vector<double> sv(A->stateSize());
    A->saveState(sv);
    B->restoreState(sv);
    Print ref = thermoPrint(*B);
    double rtol = pure ? 1e-6 : s.name.find("lattice") == 0 ? 1e-4 : eos ? 1e-7 : 1e-8;
    int n = int(g.i(10, 40));
    for (int j = 0; j < n; j++) {
        string nm;
        Print d;
        thermoQuantity(*A, g.idx(51), d, &nm);
        for (auto& [k, v] : d) {
            if (pure && (k.find("cp_") == 0 || k.find("cv_") == 0 || k == "soundSpeed" || k == "isothermalCompressibility" || k == "thermalExpansionCoeff" || k == "getPartialMolarCp" || k == "getCp_R")) continue;
            auto it = ref.find(k);
            if (!r.check("history" + K + ":" + k + "-available", it != ref.end(), "available from the used object only")) continue;
            comparePart(r, "history" + K, "p." + k, v, it->second, ref, "", T, rtol);
        }
    }
    vector<double> s2(A->stateSize());
    A->saveState(s2);
    r.check("read-keeps-state" + K, sv == s2, "reads changed the saved state");
}

int main(int argc, char** argv) {
    Run r = parse(argc, argv);
    ctInit();
    return drive(r, [](Run& r, size_t i, Rng& g) { i % 2 ? mechCase(r, i / 2, g) : phaseCase(r, i / 2, g); });
}
