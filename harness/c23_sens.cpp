// C23: reactor sensitivities. The coefficients the network computes for random reaction
// multipliers and species enthalpies are compared with central differences of complete
// integrations with the parameter changed, for every component of the state.
#include "ct.h"
#include "mechs.h"
#include "cantera/zerodim.h"
#include "cantera/zeroD/ReactorFactory.h"
#include "cantera/zeroD/ReactorSurface.h"
#include "cantera/zeroD/ConnectorFactory.h"
#include "cantera/zeroD/flowControllers.h"
#include "cantera/zeroD/Wall.h"
using namespace vh;
typedef vector<double> V;
struct Par { int kind, reactor; size_t idx; };  // 0 reaction, 1 enthalpy, 2 surface reaction
struct RP { string type; double T, P, vol; string X; bool energy, surf; double area; string cov; };
struct Plan { string file; vector<RP> R; bool inlet, wall, valve; double mdot, A, K, U; vector<Par> pars; vector<double> mult; V times; double rtol, atol, rs, as; bool early; };
struct Net {
    vector<shared_ptr<Solution>> sol, isol;
    vector<shared_ptr<ReactorBase>> r;
    vector<shared_ptr<ReactorBase>> res;
    vector<std::unique_ptr<ReactorSurface>> surf;
    vector<shared_ptr<ConnectorNode>> con;
    std::unique_ptr<ReactorNet> net;
};
static Net build(const Plan& p, bool sens, int changed = -1, double rel = 0) {
    Net b;
    b.net = make_unique<ReactorNet>();
    for (auto& R : p.R) {
        shared_ptr<Solution> s, i;
        if (R.surf) { i = freshMech(mech(p.file), "none"); s = i->adjacent(size_t(0)); i->thermo()->setState_TP(R.T, R.P); }
        else s = freshMech(mech(p.file), "none");
        s->thermo()->setState_TPX(R.T, R.P, R.X);
        if (i) dynamic_cast<SurfPhase&>(*i->thermo()).setCoveragesByName(R.cov);
        b.sol.push_back(s);
        b.isol.push_back(i);
        auto q = newReactor(R.type, s);
        q->setInitialVolume(R.vol);
        dynamic_cast<Reactor&>(*q).setEnergy(R.energy);
        b.r.push_back(q);
        if (i) {
            auto sf = make_unique<ReactorSurface>();
            sf->setKinetics(i->kinetics().get());
            sf->setArea(R.area);
            q->addSurface(sf.get());
            V c(i->thermo()->nSpecies());
            dynamic_cast<SurfPhase&>(*i->thermo()).getCoverages(c.data());
            sf->setCoverages(c.data());
            b.surf.push_back(std::move(sf));
        } else b.surf.push_back(nullptr);
    }
    if (p.inlet) {
        auto s = freshMech(mech(p.file), "none");
        if (s->nAdjacent()) s = s->adjacent(size_t(0));
        s->thermo()->setState_TPX(p.R[0].T * 0.9, p.R[0].P, p.R[0].X);
        b.sol.push_back(s);
        b.res.push_back(newReactor("Reservoir", s));
        auto s2 = freshMech(mech(p.file), "none");
        if (s2->nAdjacent()) s2 = s2->adjacent(size_t(0));
        s2->thermo()->setState_TPX(300, p.R.back().P, p.R[0].X);
        b.sol.push_back(s2);
        b.res.push_back(newReactor("Reservoir", s2));
        auto m = newConnectorNode("MassFlowController", b.res[0], b.r[0], "in");
        std::dynamic_pointer_cast<MassFlowController>(m)->setMassFlowRate(p.mdot);
        b.con.push_back(m);
        auto v = newConnectorNode("Valve", b.r.back(), b.res[1], "out");
        std::dynamic_pointer_cast<Valve>(v)->setValveCoeff(p.K);
        b.con.push_back(v);
    }
    if (p.R.size() == 2) {
        if (p.valve || p.inlet) { auto v = newConnectorNode("Valve", b.r[0], b.r[1], "v"); std::dynamic_pointer_cast<Valve>(v)->setValveCoeff(p.K); b.con.push_back(v); }
        if (p.wall) { auto w = newConnectorNode("Wall", b.r[0], b.r[1], "w"); auto q = std::dynamic_pointer_cast<Wall>(w); q->setArea(p.A); q->setHeatTransferCoeff(p.U); b.con.push_back(w); }
    }
    for (auto& q : b.r) b.net->addReactor(dynamic_cast<Reactor&>(*q));
    b.net->setTolerances(p.rtol, p.atol);
    b.net->setMaxSteps(2500);
    b.net->setSensitivityTolerances(p.rs, p.as);
    for (size_t j = 0; j < p.pars.size(); j++) {
        auto& q = p.pars[j];
        auto& R = dynamic_cast<Reactor&>(*b.r[q.reactor]);
        double f = changed == int(j) ? rel : 0;
        if (q.kind == 0) { auto& k = *b.sol[q.reactor]->kinetics(); k.setMultiplier(q.idx, p.mult[j] * (1 + f)); if (sens) R.addSensitivityReaction(q.idx); }
        if (q.kind == 1) { auto& t = *b.sol[q.reactor]->thermo(); if (f) { t.modifyOneHf298SS(q.idx, t.Hf298SS(q.idx) + f); t.invalidateCache(); b.sol[q.reactor]->kinetics()->invalidateCache(); } if (sens) R.addSensitivitySpeciesEnthalpy(q.idx); }
        if (q.kind == 2) { auto& k = *b.isol[q.reactor]->kinetics(); k.setMultiplier(q.idx, p.mult[j] * (1 + f)); if (sens) b.surf[q.reactor]->addSensitivityReaction(q.idx); }
    }
    return b;
}
static V state(Net& b) { V y(b.net->neq()); b.net->getState(y.data()); return y; }

static void one(Run& r, Rng& g) {
    Plan p;
    static const vector<string> types{"Reactor", "IdealGasReactor", "ConstPressureReactor", "IdealGasConstPressureReactor", "MoleReactor", "IdealGasMoleReactor", "ConstPressureMoleReactor", "IdealGasConstPressureMoleReactor"};
    bool surf = g.p(0.2);
    static const vector<string> gm{"ohmech", "ohmech", "ohmech", "ohmech-rk"};
    p.file = surf ? string("ptc") : g.pick(gm);
    int nr = g.p(0.35) && p.file != "ptc" ? 2 : 1;
    bool withinlet = g.p(0.3);
    p.inlet = withinlet;
    p.wall = g.p(0.5);
    p.valve = g.p(0.4);
    p.mdot = g.logu(1e-3, 1);
    p.A = g.u(); p.K = g.logu(1e-9, 1e-5); p.U = g.logu(1, 1e3);
    string name;
    for (int i = 0; i < nr; i++) {
        RP R;
        do R.type = g.pick(types); while ((p.file == "ohmech-rk" && R.type.find("IdealGas") == 0) || ((nr == 2 || withinlet) && R.type.find("ConstPressure") != string::npos && g.p(0.7)));
        R.T = surf ? g.uni(700, 1300) : g.uni(950, 1600);
        R.P = g.logu(2e4, 5e6);
        R.vol = g.logu(1e-2, 10);
        R.X = surf ? cat("CH4:", g.uni(0.05, 1), ",O2:1,N2:", g.uni(0.1, 4), p.file == "ptc" ? ",AR:0.1" : "") : cat("H2:", g.uni(0.3, 3), ",O2:", g.uni(0.5, 1.5), ",H2O:", g.p(0.4) ? g.u() : 0., ",AR:", g.uni(0, 5));
        if (p.file == "kfs-surf") R.X = cat("H2:", g.uni(0.1, 2), ",O2:1,H2O:0.1,AR:", g.uni(0, 4));
        R.energy = !g.p(0.2);
        R.surf = surf;
        R.area = g.logu(1e-3, 1) * R.vol * 1e2;
        R.cov = "PT(S):0.5, H(S):0.1, O(S):0.4";
        name += (i ? "+" : "") + R.type + (R.energy ? "" : "-noE");
        p.R.push_back(R);
    }
    // parameters
    int np = p.file == "ptc" ? 1 : g.i(1, 4);
    auto probe = freshMech(mech(p.file), "none");
    auto gas = surf ? probe->adjacent(size_t(0)) : probe;
    for (int j = 0; j < np; j++) {
        Par q;
        q.reactor = g.i(0, nr - 1);
        q.kind = surf ? g.pick(vector<int>{1, 2, 2}) : g.pick(vector<int>{0, 0, 1});
        if (q.kind == 0 && !gas->kinetics()->nReactions()) q.kind = 2;
        q.idx = q.kind == 1 ? g.i(0, int(gas->thermo()->nSpecies()) - 1) : g.i(0, int((q.kind == 0 ? gas : probe)->kinetics()->nReactions()) - 1);
        if (q.kind == 1 && g.p(0.5)) { static const vector<string> act{"H2", "O2", "H2O", "OH", "H", "O", "HO2"}; size_t k = gas->thermo()->speciesIndex(g.pick(act)); if (k != npos) q.idx = k; }
        bool dup = false;
        for (auto& o : p.pars) dup = dup || (o.kind == q.kind && o.idx == q.idx && o.reactor == q.reactor);
        if (dup) continue;
        p.pars.push_back(q);
        p.mult.push_back(q.kind == 1 ? 1 : g.p(0.6) ? 1 : g.logu(0.2, 5));
    }
    p.rtol = 1e-9; p.atol = 1e-16;
    p.rs = 1e-5; p.as = 1e-11;
    double te = g.logu(1e-6, 3e-4) * (surf ? 0.1 : 1);
    p.times = {te * g.uni(0.2, 0.8), te};
    p.early = g.p(0.5);
    r.describe(p.file + (surf ? " surf " : " ") + name);
    string at = "@" + string(surf ? "surf" : p.file == "ohmech-rk" ? "rk" : "gas");
    // with sensitivities
    struct Rec { V y; vector<V> s; };
    vector<Rec> rec;
    Net b = build(p, true);
    size_t n = 0;
    try {
        for (double t : p.times) {
            b.net->advance(t);
            Rec q;
            q.y = state(b);
            n = q.y.size();
            for (size_t j = 0; j < p.pars.size(); j++) { V s(n); for (size_t k = 0; k < n; k++) s[k] = b.net->sensitivity(k, j) * (q.y[k] == 0 ? SmallNumber : q.y[k]); q.s.push_back(s); }
            rec.push_back(q);
        }
    } catch (CanteraError& e) { r.count("integration-failed"); if (getenv("SHOW")) std::cerr << "FAILED " << name << " " << p.file << " " << string(e.what()).substr(0, 900) << std::endl; return; }
    // names, index forms and parameters put back
    for (size_t j = 0; j < p.pars.size(); j++) {
        auto& q = p.pars[j];
        auto& R = dynamic_cast<Reactor&>(*b.r[q.reactor]);
        if (q.kind == 0) r.near("multiplier-restored" + at, b.sol[q.reactor]->kinetics()->multiplier(q.idx), p.mult[j], 1e-14);
        if (q.kind == 2) r.near("multiplier-restored" + at, b.isol[q.reactor]->kinetics()->multiplier(q.idx), p.mult[j], 1e-14);
        if (q.kind == 1) r.near("enthalpy-restored" + at, b.sol[q.reactor]->thermo()->Hf298SS(q.idx), gas->thermo()->Hf298SS(q.idx), 1e-12, 1e-3);
        for (int c = 0; c < 3; c++) {
            size_t k = g.i(0, int(R.neq()) - 1);
            string cn = R.componentName(k);
            size_t off = 0;
            for (int i = 0; i < q.reactor; i++) off += dynamic_cast<Reactor&>(*b.r[i]).neq();
            r.near("by-name" + at, b.net->sensitivity(cn, j, q.reactor), b.net->sensitivity(off + k, j), 1e-14, 0, cn);
        }
    }
    bool threw = false;
    try { b.net->sensitivity(0, p.pars.size()); } catch (CanteraError&) { threw = true; }
    r.check("bad-parameter-refused" + at, threw);
    // without
    auto runs = [&](int j, double f) {
        vector<V> out;
        Net q = build(p, false, j, f);
        for (double t : p.times) { q.net->advance(t); out.push_back(state(q)); }
        return out;
    };
    try {
        auto plain = runs(-1, 0);
        for (size_t i = 0; i < rec.size(); i++) for (size_t k = 0; k < n; k++) r.near("same-solution" + at, rec[i].y[k], plain[i][k], name.find("Ideal") != 0 || name.find("+") != string::npos ? 1e-2 : 5e-4, 1e-10, cat(name, " component ", k, " t ", p.times[i]));
        for (size_t j = 0; j < p.pars.size(); j++) {
            auto& q = p.pars[j];
            double d = q.kind == 1 ? 1e6 : 1e-2; // J/kmol or relative
            double sc = q.kind == 1 ? 1 : 1;
            auto up = runs(int(j), d), dn = runs(int(j), -d), up2 = runs(int(j), d / 2), dn2 = runs(int(j), -d / 2);
            size_t off = 0;
            vector<char> skip(n, 0);
            bool es = false;
            for (size_t q = 0; q < p.R.size(); q++) {
                auto& R = dynamic_cast<Reactor&>(*b.r[q]);
                bool ideal = p.R[q].type.find("IdealGas") == 0;
                if (!ideal && p.R[q].energy) es = true;
                // without an energy equation the energy reported is that of the composition, the one integrated is constant
                if (!p.R[q].energy) for (size_t k = 0; k < R.neq(); k++) { string c = R.componentName(k); if (c == "int_energy" || c == "enthalpy") skip[off + k] = 1; }
                off += R.neq();
            }
            for (size_t i = 0; i < rec.size(); i++) {
                for (size_t k = 0; k < n; k++) {
                    if (skip[k]) continue;
                    double f1 = (up[i][k] - dn[i][k]) / (2 * d) * sc, f2 = (up2[i][k] - dn2[i][k]) / d * sc;
                    double fd = (4 * f2 - f1) / 3;
                    double y = std::fabs(rec[i].y[k]);
                    // what can be resolved: integration noise, and sensitivity errors relative to the component
                    double unc = 3 * std::fabs(f1 - f2) + (1e-7 * y + 1e-13) / d;
                    double unit = q.kind == 1 ? 1 / (GasConstant * 298.15) : 1; // a parameter of natural size
                    double tol = (es ? 3e-2 : 1e-2) * std::fabs(fd) + unc + (surf ? 1e-2 : es ? 5e-3 : 5e-4) * (y + 1e-9) * unit + 1000 * p.as * unit;
                    r.near(cat(q.kind == 0 ? "reaction" : q.kind == 1 ? (es ? "enthalpy-energy-state" : "enthalpy") : "surface-reaction", at), rec[i].s[j][k], fd, 0, tol, cat(name, " component ", k, " of ", n, " y ", rec[i].y[k], " par ", q.idx, " of reactor ", q.reactor, " t ", p.times[i], " fd1 ", f1, " fd2 ", f2, " file ", p.file, p.inlet ? " inlet" : ""));
                    if (std::fabs(fd) > 4 * tol) r.count("resolved");
                }
                r.state(hashv(rec[i].s[j]));
            }
        }
    } catch (CanteraError& e) { r.count("plain-failed"); }
}
int main(int argc, char** argv) {
    Run r = parse(argc, argv);
    ctInit();
    return drive(r, [](Run& r, size_t, Rng& g) { one(r, g); });
}
