// C20 / C21 / C22: reactor networks.
//
// Random networks (reactor types, mechanisms with and without surfaces, walls, flow
// devices, reservoirs, shared and separate Solutions) are integrated. Along the trajectory
// * C22: every device's flow, expansion rate and heat rate equals its law, evaluated here;
// * C20: the rate of change the network assigns to every reactor's species amounts, surface
//   amounts, elements, volume and energy, measured by moving the network along its own
//   right-hand side, equals the balance of sources written here; totals of closed networks
//   are conserved by the integration;
// * C21: equivalent formulations and ways of integrating give the same trajectory.
#include "ct.h"
#include "gen.h"
#include "phases.h"
#include "cantera/zerodim.h"
#include "cantera/zeroD/ReactorFactory.h"
#include "cantera/zeroD/ConnectorFactory.h"
#include "cantera/zeroD/flowControllers.h"
#include "cantera/zeroD/ReactorSurface.h"
#include "cantera/zeroD/Wall.h"
#include "cantera/base/Interface.h"
#include "cantera/numerics/Func1.h"
#include "cantera/numerics/SystemJacobianFactory.h"
#include "cantera/numerics/Integrator.h"
using namespace vh;

struct Fn : Func1 {
    std::function<double(double)> f;
    explicit Fn(std::function<double(double)> g) : f(std::move(g)) {}
    double eval(double t) const override { return f(t); }
};

// ---- plan: everything needed to build the network, possibly several times ------------

struct RPlan { string type; double vol, T, P; vector<double> X; bool energy, chem; int sol; bool reservoir; int nsurf; vector<double> area; vector<vector<double>> cov; };
struct WPlan { int l, r; double A, k, U, eps; double v0, vw, q0, qw; bool hasv, hasq; };
struct FPlan { int kind, from, to, primary; double coeff; double ta, tw; bool tf; int pf; double pc; };

struct Plan {
    std::function<shared_ptr<Solution>()> gas;
    std::function<shared_ptr<Solution>(shared_ptr<Solution>)> surf;
    string mech;
    vector<RPlan> R;
    vector<WPlan> W;
    vector<FPlan> F;
    bool shared = false;
    double tend = 1e-3, rtol = 1e-9, atol = 1e-18;
};

struct Built {
    vector<shared_ptr<Solution>> sols;
    vector<vector<shared_ptr<Solution>>> surfs;
    vector<shared_ptr<ReactorBase>> R;
    vector<vector<shared_ptr<ReactorSurface>>> S;
    vector<shared_ptr<Wall>> W;
    vector<shared_ptr<FlowDevice>> F;
    vector<std::unique_ptr<Func1>> fns;
    std::unique_ptr<ReactorNet> net;
    vector<int> netIndex;   // position of each reactor in the network or -1
    Reactor& reactor(size_t i) { return dynamic_cast<Reactor&>(*R[i]); }
    ~Built() { net.reset(); }
};

static double pfun(int kind, double dp, double c) {
    if (kind == 1) return c * dp;
    if (kind == 2) return dp > 0 ? std::sqrt(dp) * c : -std::sqrt(-dp) * c;
    return c * (dp + 0.1 * std::fabs(dp)) + 1e-3;
}
static double tfun(const FPlan& f, double t) { return f.tf ? 1 + f.ta * std::sin(f.tw * t) : 1; }

static std::unique_ptr<Built> build(const Plan& p, const vector<string>& types = {}) {
    auto b = std::make_unique<Built>();
    shared_ptr<Solution> common;
    if (p.shared) common = p.gas();
    b->surfs.resize(p.R.size()); b->S.resize(p.R.size());
    for (size_t i = 0; i < p.R.size(); i++) {
        auto& r = p.R[i];
        auto sol = common ? common : p.gas();
        b->sols.push_back(sol);
        sol->thermo()->setState_TPX(r.T, r.P, r.X.data());
        string type = types.empty() ? r.type : types[i];
        if (r.reservoir) { b->R.push_back(newReactor("Reservoir", sol)); continue; }
        auto rb = newReactor(type, sol);
        auto& re = dynamic_cast<Reactor&>(*rb);
        re.setInitialVolume(r.vol);
        re.setEnergy(r.energy);
        re.setChemistry(r.chem);
        b->R.push_back(rb);
        for (int s = 0; s < r.nsurf; s++) {
            auto sf = p.surf(sol);
            b->surfs[i].push_back(sf);
            auto rs = std::make_shared<ReactorSurface>();
            rs->setKinetics(sf->kinetics().get());
            rs->setArea(r.area[s]);
            rs->setCoverages(r.cov[s].data());
            re.addSurface(rs.get());
            b->S[i].push_back(rs);
        }
    }
    for (auto& w : p.W) {
        auto wb = std::make_shared<Wall>(b->R[w.l], b->R[w.r]);
        wb->setArea(w.A);
        wb->setExpansionRateCoeff(w.k);
        wb->setHeatTransferCoeff(w.U);
        wb->setEmissivity(w.eps);
        if (w.hasv) { WPlan c = w; b->fns.emplace_back(new Fn([c](double t) { return c.v0 * std::sin(c.vw * t + 0.5); })); wb->setVelocity(b->fns.back().get()); }
        if (w.hasq) { WPlan c = w; b->fns.emplace_back(new Fn([c](double t) { return c.q0 * std::cos(c.qw * t); })); wb->setHeatFlux(b->fns.back().get()); }
        b->W.push_back(wb);
    }
    for (auto& f : p.F) {
        static const char* kinds[] = {"MassFlowController", "Valve", "PressureController"};
        auto d = newFlowDevice(kinds[f.kind], b->R[f.from], b->R[f.to]);
        if (f.kind == 0) { auto m = dynamic_cast<MassFlowController*>(d.get()); if (f.tf) m->setMassFlowCoeff(f.coeff); else m->setMassFlowRate(f.coeff); }
        else if (f.kind == 1) dynamic_cast<Valve*>(d.get())->setValveCoeff(f.coeff);
        else { auto pc = dynamic_cast<PressureController*>(d.get()); pc->setPressureCoeff(f.coeff); pc->setPrimary(b->F[f.primary].get()); }
        if (f.tf) { FPlan c = f; b->fns.emplace_back(new Fn([c](double t) { return tfun(c, t); })); d->setTimeFunction(b->fns.back().get()); }
        if (f.pf) { FPlan c = f; b->fns.emplace_back(new Fn([c](double dp) { return pfun(c.pf, dp, c.pc); })); d->setPressureFunction(b->fns.back().get()); }
        b->F.push_back(d);
    }
    b->net = std::make_unique<ReactorNet>();
    b->netIndex.assign(p.R.size(), -1);
    int n = 0;
    for (size_t i = 0; i < p.R.size(); i++) if (!p.R[i].reservoir) { b->net->addReactor(b->reactor(i)); b->netIndex[i] = n++; }
    b->net->setTolerances(p.rtol, p.atol);
    b->net->setMaxSteps(4000);
    b->net->setMaxTimeStep(p.tend / 200);
    return b;
}

static bool constP(const string& t) { return t.find("ConstPressure") != string::npos; }

static double lawFlow(const Plan& p, size_t d, double t, const Built& b) {
    auto& f = p.F[d];
    double dp = b.R[f.from]->pressure() - b.R[f.to]->pressure();
    double pf = f.pf ? pfun(f.pf, dp, f.pc) : dp;
    double m;
    if (f.kind == 0) m = f.coeff * tfun(f, t);
    else if (f.kind == 1) m = f.coeff * tfun(f, t) * pf;
    else m = f.coeff * pf + lawFlow(p, f.primary, t, b);
    return std::max(m, 0.0);
}
static double lawExpansion(const WPlan& w, double t, const Built& b) {
    return w.A * (w.k * (b.R[w.l]->pressure() - b.R[w.r]->pressure()) + (w.hasv ? w.v0 * std::sin(w.vw * t + 0.5) : 0));
}
static double lawHeat(const WPlan& w, double t, const Built& b) {
    double a = b.R[w.l]->temperature(), c = b.R[w.r]->temperature();
    return w.A * (w.U * (a - c) + w.eps * 5.670374419e-8 * (std::pow(a, 4) - std::pow(c, 4)) + (w.hasq ? w.q0 * std::cos(w.qw * t) : 0));
}

// ---- contents ------------------------------------------------------------------------

struct Amounts {
    vector<double> n;                 // species kmol in the fluid
    vector<vector<double>> s;         // kmol on surfaces
    double V, U, H, T, P, M;
};
static Amounts amounts(Built& b, size_t i) {
    Amounts a;
    auto& r = *b.R[i];
    r.restoreState();
    auto& th = r.contents();
    a.M = r.mass(); a.V = r.volume(); a.T = th.temperature(); a.P = th.pressure();
    a.U = a.M * th.intEnergy_mass(); a.H = a.M * th.enthalpy_mass();
    a.n.resize(th.nSpecies());
    for (size_t k = 0; k < a.n.size(); k++) a.n[k] = a.M * th.massFraction(k) / th.molecularWeight(k);
    for (auto& s : b.S[i]) {
        vector<double> c(s->thermo()->nSpecies());
        s->getCoverages(c.data());
        for (size_t k = 0; k < c.size(); k++) c[k] *= s->area() * s->thermo()->siteDensity() / s->thermo()->size(k);
        a.s.push_back(c);
    }
    return a;
}

static string who(const Plan& p, size_t i) { return p.R[i].type + (p.R[i].nsurf ? "+surf" : ""); }

static void devices(Run& r, const Plan& p, Built& b, double t, const string& when) {
    for (size_t d = 0; d < p.F.size(); d++) {
        static const char* kinds[] = {"mfc", "valve", "pressure-controller"};
        double want = lawFlow(p, d, t, b), got = b.F[d]->massFlowRate();
        double scale = std::fabs(p.F[d].coeff) * (b.R[p.F[d].from]->pressure() + b.R[p.F[d].to]->pressure()) * 1e-12 * (p.F[d].kind ? 1 : 0) * (p.F[d].pf ? p.F[d].pc : 1);
        if (p.F[d].pf == 2) scale = 1e-6 * std::fabs(p.F[d].coeff * p.F[d].pc) * std::sqrt(b.R[p.F[d].from]->pressure());
        r.near(string("flow-") + when + "@" + kinds[p.F[d].kind], got, want, 1e-11, scale, cat("device ", d, " t ", t));
        r.check(string("flow-not-reversed-") + when + "@" + kinds[p.F[d].kind], got >= 0);
        // seen by the receiving side
        double sum = 0;
        auto& out = b.R[p.F[d].to]->contents();
        for (size_t k = 0; k < out.nSpecies(); k++) {
            double ms = b.F[d]->outletSpeciesMassFlowRate(k);
            sum += ms;
            r.near(string("flow-species-") + when + "@" + kinds[p.F[d].kind], ms, got * b.R[p.F[d].from]->massFraction(k), 1e-12, 1e-300);
        }
        r.near(string("flow-total-") + when + "@" + kinds[p.F[d].kind], sum, got, 1e-3);
        r.near(string("flow-enthalpy-") + when + "@" + kinds[p.F[d].kind], b.F[d]->enthalpy_mass(), b.R[p.F[d].from]->enthalpy_mass(), 1e-14);
    }
    for (size_t w = 0; w < p.W.size(); w++) {
        auto& q = p.W[w];
        r.near(string("expansion-rate-") + when + "@wall", b.W[w]->expansionRate(), lawExpansion(q, t, b), 1e-11, 1e-13 * q.A * (q.k * b.R[q.l]->pressure() + std::fabs(q.v0)), cat("wall ", w, " t ", t));
        double s = q.A * (q.U * 3000 + q.eps * 5.67e-8 * std::pow(3000., 4) + std::fabs(q.q0)) * 1e-13;
        r.near(string("heat-rate-") + when + "@wall", b.W[w]->heatRate(), lawHeat(q, t, b), 1e-9, s, cat("wall ", w, " t ", t));
    }
}

// ---- right-hand side balances ---------------------------------------------------------

static void balances(Run& r, const Plan& p, Built& b, double t, bool conserve, bool laws) {
    auto& net = *b.net;
    size_t N = net.neq();
    vector<double> y(N), yd(N), q(N);
    net.getState(y.data());
    net.eval(t, y.data(), yd.data(), nullptr);
    if (laws) devices(r, p, b, t, "rhs");
    if (!conserve) { net.updateState(y.data()); return; }
    // sources at this state
    size_t nr = p.R.size();
    struct Src { vector<double> dn, an; vector<vector<double>> ds, as; double dV, aV, Q, aQ, h, ah, P; };
    vector<Src> src(nr);
    vector<Amounts> A(nr);
    for (size_t i = 0; i < nr; i++) A[i] = amounts(b, i);
    for (size_t i = 0; i < nr; i++) {
        if (p.R[i].reservoir) continue;
        Src& s = src[i];
        b.R[i]->restoreState();
        auto& th = b.R[i]->contents();
        size_t ns = th.nSpecies();
        s.dn.assign(ns, 0); s.an.assign(ns, 0);
        s.dV = s.aV = s.Q = s.aQ = s.h = s.ah = 0; s.P = A[i].P;
        auto kin = b.sols[i]->kinetics();
        if (b.reactor(i).chemistryEnabled()) {
            vector<double> w(ns), c(ns), de(ns);
            kin->getNetProductionRates(w.data()); kin->getCreationRates(c.data()); kin->getDestructionRates(de.data());
            for (size_t k = 0; k < ns; k++) { s.dn[k] += w[k] * A[i].V; s.an[k] += (std::fabs(c[k]) + std::fabs(de[k])) * A[i].V; }
        }
        for (size_t j = 0; j < b.S[i].size(); j++) {
            auto& S = *b.S[i][j];
            b.R[i]->restoreState();
            S.syncState();
            auto k2 = S.kinetics();
            size_t nk = S.thermo()->nSpecies(), nt = k2->nTotalSpecies(), loc = k2->kineticsSpeciesIndex(th.speciesName(0));
            vector<double> w(nt), c(nt), de(nt);
            k2->getNetProductionRates(w.data()); k2->getCreationRates(c.data()); k2->getDestructionRates(de.data());
            vector<double> d(nk), a(nk);
            size_t sl = k2->kineticsSpeciesIndex(S.thermo()->speciesName(0));
            for (size_t k = 0; k < nk; k++) { d[k] = w[sl + k] * S.area(); a[k] = (std::fabs(c[sl + k]) + std::fabs(de[sl + k])) * S.area(); }
            for (size_t k = 0; k < ns; k++) { s.dn[k] += w[loc + k] * S.area(); s.an[k] += (std::fabs(c[loc + k]) + std::fabs(de[loc + k])) * S.area(); }
            s.ds.push_back(d); s.as.push_back(a);
        }
    }
    for (size_t w = 0; w < p.W.size(); w++) {
        auto& q2 = p.W[w];
        double v = lawExpansion(q2, t, b), h = lawHeat(q2, t, b);
        double av = q2.A * (q2.k * (A[q2.l].P + A[q2.r].P) + std::fabs(q2.hasv ? q2.v0 : 0));
        double ah = std::fabs(h) + q2.A * q2.U * (A[q2.l].T + A[q2.r].T) + q2.A * q2.eps * 5.67e-8 * (std::pow(A[q2.l].T, 4) + std::pow(A[q2.r].T, 4));
        src[q2.l].dV += v; src[q2.r].dV -= v; src[q2.l].Q -= h; src[q2.r].Q += h;
        for (int e : {q2.l, q2.r}) { src[e].aV += av; src[e].aQ += ah; }
    }
    for (size_t d = 0; d < p.F.size(); d++) {
        auto& f = p.F[d];
        double m = lawFlow(p, d, t, b), hu = A[f.from].H / A[f.from].M;
        auto Yk = [&](size_t k) { return A[f.from].n[k] / A[f.from].M; };
        for (size_t k = 0; k < A[f.from].n.size(); k++) {
            if (!p.R[f.from].reservoir) { src[f.from].dn[k] -= m * Yk(k); src[f.from].an[k] += std::fabs(m * Yk(k)); }
            if (!p.R[f.to].reservoir) { src[f.to].dn[k] += m * Yk(k); src[f.to].an[k] += std::fabs(m * Yk(k)); }
        }
        if (!p.R[f.from].reservoir) { src[f.from].h -= m * hu; src[f.from].ah += std::fabs(m * hu); }
        if (!p.R[f.to].reservoir) { src[f.to].h += m * hu; src[f.to].ah += std::fabs(m * hu); }
    }
    for (size_t i = 0; i < nr; i++) {
        double nt = std::accumulate(A[i].n.begin(), A[i].n.end(), 0.0);
        if (!(A[i].M > 0 && nt > 0 && A[i].V > 0 && A[i].P > 0)) { r.count("drained"); return; }
    }
    // move along the right-hand side
    // step: relative changes of amounts, temperature and volume stay small
    double eps = 1e300;
    for (size_t i = 0; i < nr; i++) {
        if (p.R[i].reservoir) continue;
        double ntot = std::accumulate(A[i].n.begin(), A[i].n.end(), 0.0), rate = 0;
        for (size_t k = 0; k < A[i].n.size(); k++) rate += src[i].an[k];
        rate = rate / ntot + src[i].aV / A[i].V;
        auto& th = b.R[i]->contents();
        b.R[i]->restoreState();
        double cv = th.cv_mass() * A[i].M;
        vector<double> ph(th.nSpecies());
        th.getPartialMolarEnthalpies(ph.data());
        double hr = std::fabs(src[i].Q) + std::fabs(src[i].h) + std::fabs(A[i].P * src[i].dV);
        for (size_t k = 0; k < ph.size(); k++) hr += std::fabs(src[i].an[k] * ph[k]);
        rate += hr / (cv * A[i].T);
        for (size_t j = 0; j < src[i].as.size(); j++) {
            double nt = b.S[i][j]->area() * b.S[i][j]->thermo()->siteDensity(), rs = 0;
            for (double x : src[i].as[j]) rs += x;
            // coverages only enter linearly in the amounts measured here
            rate += 1e-4 * rs / nt;
        }
        eps = std::min(eps, 3e-4 / std::max(rate, 1e-300));
    }
    if (!(eps < 1e200)) { r.count("nothing-happens"); eps = 1; }
    auto at = [&](double e) {
        for (size_t j = 0; j < N; j++) q[j] = y[j] + e * yd[j];
        net.updateState(q.data());
        vector<Amounts> v(nr);
        for (size_t i = 0; i < nr; i++) v[i] = amounts(b, i);
        return v;
    };
    vector<Amounts> P1, M1, P2, M2;
    try {
        P1 = at(eps); M1 = at(-eps); P2 = at(eps / 2); M2 = at(-eps / 2);
    } catch (CanteraError&) { r.count("rhs-step-refused"); net.updateState(y.data()); return; }
    net.updateState(y.data());
    for (size_t i = 0; i < nr; i++) {
        if (p.R[i].reservoir) continue;
        string w = who(p, i);
        Src& s = src[i];
        auto der = [&](auto get, double mag, double* err) {
            double d1 = (get(P1[i]) - get(M1[i])) / (2 * eps), d2 = (get(P2[i]) - get(M2[i])) / eps;
            *err = 0.1 * std::fabs(d1 - d2) + 2e-14 * mag / eps;
            return (4 * d2 - d1) / 3;
        };
        double e, d;
        auto& th = b.R[i]->contents();
        size_t ns = A[i].n.size();
        double ntot = std::accumulate(A[i].n.begin(), A[i].n.end(), 0.0);
        double atot = 0;
        for (double x : s.an) atot += x;
        for (size_t k = 0; k < ns; k++) {
            d = der([&](const Amounts& a) { return a.n[k]; }, std::fabs(A[i].n[k]) + 1e-3 * ntot, &e);
            r.near("species-balance@" + w, d, s.dn[k], 0, e + 1e-7 * s.an[k] + 1e-10 * atot, cat(th.speciesName(k), " reactor ", i, " t ", t));
        }
        for (size_t j = 0; j < s.ds.size(); j++) {
            double nt = b.S[i][j]->area() * b.S[i][j]->thermo()->siteDensity();
            double as = 0;
            for (double x : s.as[j]) as += x;
            for (size_t k = 0; k < s.ds[j].size(); k++) {
                d = der([&](const Amounts& a) { return a.s[j][k]; }, nt, &e);
                // (Reactor takes the first coverage from the sum of the others)
                r.near("surface-balance@" + w, d, s.ds[j][k], 0, e + 1e-7 * s.as[j][k] + 1e-10 * as, cat(b.S[i][j]->thermo()->speciesName(k), " surface ", j, " reactor ", i));
            }
        }
        // elements of fluid and surfaces together
        for (size_t m = 0; m < th.nElements(); m++) {
            string el = th.elementName(m);
            auto tot = [&](const Amounts& a) {
                double x = 0;
                for (size_t k = 0; k < ns; k++) x += a.n[k] * th.nAtoms(k, m);
                for (size_t j = 0; j < a.s.size(); j++) { auto& sp = *b.S[i][j]->thermo(); size_t me = sp.elementIndex(el); if (me != npos) for (size_t k = 0; k < a.s[j].size(); k++) x += a.s[j][k] * sp.nAtoms(k, me); }
                return x;
            };
            double want = 0, mag = 0, srcs = 0;
            for (size_t k = 0; k < ns; k++) { mag += std::fabs(A[i].n[k] * th.nAtoms(k, m)); srcs += s.an[k] * std::fabs(th.nAtoms(k, m)); }
            for (size_t j = 0; j < s.as.size(); j++) { auto& sp = *b.S[i][j]->thermo(); size_t me = sp.elementIndex(el); if (me != npos) for (size_t k = 0; k < s.as[j].size(); k++) { srcs += s.as[j][k] * sp.nAtoms(k, me); mag += A[i].s[j][k] * sp.nAtoms(k, me); } }
            for (size_t dv = 0; dv < p.F.size(); dv++) {
                auto& f = p.F[dv];
                if (f.from != int(i) && f.to != int(i)) continue;
                double mf = lawFlow(p, dv, t, b), z = 0;
                for (size_t k = 0; k < ns; k++) z += A[f.from].n[k] / A[f.from].M * th.nAtoms(k, m);
                if (f.to == int(i)) want += mf * z;
                if (f.from == int(i)) want -= mf * z;
            }
            d = der(tot, mag + 1e-3 * ntot, &e);
            r.near("element-balance@" + w, d, want, 0, e + 1e-8 * srcs + 1e-11 * atot, el);
        }
        double amass = 0, wmass = 0;
        for (size_t k = 0; k < ns; k++) { amass += s.an[k] * th.molecularWeight(k); wmass += s.dn[k] * th.molecularWeight(k); }
        d = der([&](const Amounts& a) { return a.M; }, A[i].M, &e);
        r.near("mass-balance@" + w, d, wmass, 0, e + 1e-9 * amass);
        if (!constP(p.R[i].type)) {
            d = der([&](const Amounts& a) { return a.V; }, A[i].V, &e);
            r.near("volume-balance@" + w, d, s.dV, 0, e + 1e-9 * s.aV, cat("reactor ", i));
            if (p.R[i].energy) {
                d = der([&](const Amounts& a) { return a.U; }, std::fabs(A[i].U) + A[i].n[0] * 0 + ntot * GasConstant * A[i].T * 10, &e);
                double want = -A[i].P * s.dV + s.Q + s.h;
                vector<double> pu(ns);
                b.R[i]->restoreState();
                th.getPartialMolarEnthalpies(pu.data());
                double terms = A[i].P * s.aV + s.aQ + s.ah;
                for (size_t k = 0; k < ns; k++) terms += std::fabs(pu[k]) * s.an[k];
                r.near("energy-balance@" + w, d, want, 0, e + 1e-7 * terms, cat("reactor ", i, " t ", t));
            }
        } else {
            d = der([&](const Amounts& a) { return a.P; }, A[i].P, &e);
            r.near("constant-pressure@" + w, d, 0, 0, e + 1e-9 * A[i].P / eps);
            if (p.R[i].energy) {
                d = der([&](const Amounts& a) { return a.H; }, std::fabs(A[i].H) + ntot * GasConstant * A[i].T * 10, &e);
                double want = s.Q + s.h;
                vector<double> pu(ns);
                b.R[i]->restoreState();
                th.getPartialMolarEnthalpies(pu.data());
                double terms = s.aQ + s.ah;
                for (size_t k = 0; k < ns; k++) terms += std::fabs(pu[k]) * s.an[k];
                // (setState_HP stops at a relative error of 1e-9)
                e += 3e-9 * (std::fabs(A[i].H) + ntot * GasConstant * A[i].T * 10) / eps;
                r.near("enthalpy-balance@" + w, d, want, 0, e + 1e-7 * terms, cat("reactor ", i, " t ", t));
            }
        }
        if (!p.R[i].energy) {
            d = der([&](const Amounts& a) { return a.T; }, A[i].T, &e);
            r.near("constant-temperature@" + w, d, 0, 0, e + 1e-9 * A[i].T / eps);
            r.near("temperature-as-set@" + w, A[i].T, p.R[i].T, 1e-9, 0, cat("reactor ", i, p.shared ? " shared" : " separate"));
        }
    }
}

// ---- totals of closed networks --------------------------------------------------------

struct Totals { std::map<string, double> el; double mass = 0, U = 0, V = 0, scaleU = 0; };
static Totals totals(const Plan& p, Built& b) {
    Totals t;
    for (size_t i = 0; i < p.R.size(); i++) {
        if (p.R[i].reservoir) continue;
        Amounts a = amounts(b, i);
        auto& th = b.R[i]->contents();
        for (size_t m = 0; m < th.nElements(); m++) for (size_t k = 0; k < a.n.size(); k++) t.el[th.elementName(m)] += a.n[k] * th.nAtoms(k, m);
        for (size_t j = 0; j < a.s.size(); j++) { auto& sp = *b.S[i][j]->thermo(); for (size_t m = 0; m < sp.nElements(); m++) for (size_t k = 0; k < a.s[j].size(); k++) t.el[sp.elementName(m)] += a.s[j][k] * sp.nAtoms(k, m); }
        t.mass += a.M; t.U += a.U; t.V += a.V;
        t.scaleU += std::fabs(a.U) + a.M * GasConstant / 20 * a.T * 10;
    }
    return t;
}

// ---- generation ------------------------------------------------------------------------

static AnyMap& fileRoot(const string& f) {
    static std::map<string, AnyMap> c;
    auto it = c.find(f);
    if (it == c.end()) it = c.emplace(f, AnyMap::fromYamlFile(findInputFile(f))).first;
    return it->second;
}

static Plan randomPlan(Rng& g, bool single, string& desc) {
    Plan p;
    int m = g.i(0, 9);
    shared_ptr<Solution> probe;
    std::ostringstream o;
    bool ideal = true;
    if (m < 3) { p.mech = "h2o2"; p.gas = [] { return newSolution("h2o2.yaml", "ohmech", "none"); }; }
    else if (m < 4) { p.mech = "rk"; ideal = false; p.gas = [] { return newSolution("h2o2.yaml", "ohmech-RK", "none"); }; }
    else if (m < 5) {
        p.mech = "ptc";
        p.gas = [] { return newSolution("ptcombust.yaml", "gas", "none"); };
        p.surf = [](shared_ptr<Solution> s) { return std::static_pointer_cast<Solution>(newInterface("ptcombust.yaml", "Pt_surf", {s})); };
    } else {
        p.mech = "gen";
        auto gm = std::make_shared<GMech>(randomMechanism(g, g.i(0, 12), g.p(0.6) ? g.i(3, 8) : 0));
        auto root = std::make_shared<AnyMap>(AnyMap::fromYamlString(gm->yaml));
        p.gas = [root] { return phaseFrom(*root, "gas"); };
        if (gm->hasSurf) p.surf = [root](shared_ptr<Solution> s) { return phaseFrom(*root, "surf", {s}); };
        o << gm->yaml;
    }
    probe = p.gas();
    size_t ns = probe->thermo()->nSpecies();
    shared_ptr<Solution> sprobe;
    if (p.surf) sprobe = p.surf(probe);
    p.shared = g.p(0.3);
    int n = single ? 1 : g.i(1, 3), nres = single ? 0 : g.i(0, 2);
    static const vector<string> any{"Reactor", "ConstPressureReactor", "MoleReactor", "ConstPressureMoleReactor"},
        idealT{"IdealGasReactor", "IdealGasConstPressureReactor", "IdealGasMoleReactor", "IdealGasConstPressureMoleReactor", "Reactor", "ConstPressureReactor", "MoleReactor", "ConstPressureMoleReactor"};
    o << " " << p.mech << (p.shared ? " shared" : "");
    for (int i = 0; i < n + nres; i++) {
        RPlan r;
        r.reservoir = i >= n;
        r.type = g.pick(ideal ? idealT : any);
        r.vol = g.logu(1e-4, 10);
        r.T = g.uni(400, 2200);
        r.P = g.logu(2e4, 3e6);
        r.X = randomX(g, ns);
        if (g.p(0.5)) for (auto& x : r.X) x = std::max(x, 1e-6);
        r.energy = g.p(0.8); r.chem = g.p(0.85);
        r.nsurf = p.surf && !r.reservoir && g.p(0.8) ? g.i(1, 2) : 0;
        for (int s = 0; s < r.nsurf; s++) {
            r.area.push_back(g.logu(1e-4, 10) * std::pow(r.vol, 2. / 3));
            vector<double> c(sprobe->thermo()->nSpecies());
            double sum = 0;
            for (auto& x : c) { x = g.u(); sum += x; }
            for (auto& x : c) x /= sum;
            r.cov.push_back(c);
        }
        p.R.push_back(r);
        o << " | " << (r.reservoir ? "Reservoir" : r.type) << " V " << r.vol << " T " << r.T << " P " << r.P << (r.energy ? "" : " isothermal") << (r.chem ? "" : " inert") << " surf " << r.nsurf;
    }
    int tot = n + nres;
    p.tend = g.logu(1e-6, 1e-1);
    if (tot > 1) {
        for (int k = g.i(0, 2); k > 0; k--) {
            WPlan w{};
            w.l = g.i(0, tot - 1);
            do w.r = g.i(0, tot - 1); while (w.r == w.l);
            if (p.R[w.l].reservoir && p.R[w.r].reservoir) continue;
            double V = std::min(p.R[w.l].reservoir ? 1e9 : p.R[w.l].vol, p.R[w.r].reservoir ? 1e9 : p.R[w.r].vol);
            w.A = g.logu(0.01, 10) * std::pow(V, 2. / 3);
            if (g.p(0.5)) w.k = g.logu(1e-6, 1e-2) * V / (w.A * 1e6 * p.tend);
            if (g.p(0.6)) w.U = g.logu(0.1, 1e4);
            if (g.p(0.3)) w.eps = g.u();
            w.hasv = g.p(0.4); w.hasq = g.p(0.4);
            w.v0 = g.uni(-0.2, 0.2) * V / (w.A * p.tend); w.vw = g.logu(0.1, 10) / p.tend;
            w.q0 = g.uni(-1, 1) * 3e4 * V / (w.A * p.tend); w.qw = g.logu(0.1, 10) / p.tend;
            p.W.push_back(w);
            o << " wall " << w.l << "-" << w.r << " k " << w.k << " U " << w.U << " eps " << w.eps << (w.hasv ? " v" : "") << (w.hasq ? " q" : "");
        }
        for (int k = g.i(0, 4); k > 0; k--) {
            FPlan f{};
            f.from = g.i(0, tot - 1);
            do f.to = g.i(0, tot - 1); while (f.to == f.from);
            if (p.R[f.from].reservoir && p.R[f.to].reservoir) continue;
            double M = 1e300;
            for (int e : {f.from, f.to}) if (!p.R[e].reservoir) M = std::min(M, p.R[e].vol * p.R[e].P / (8314 * p.R[e].T) * 10);
            f.kind = g.i(0, 2);
            vector<int> prim;
            for (size_t d = 0; d < p.F.size(); d++) if (p.F[d].kind == 0) prim.push_back(int(d));
            if (f.kind == 2 && prim.empty()) f.kind = 0;
            double mdot = g.logu(1e-3, 0.3) * M / p.tend;
            f.tf = f.kind < 2 && g.p(0.4); f.ta = g.uni(-1.5, 1.5); f.tw = g.logu(0.1, 10) / p.tend;
            if (f.kind == 0) { f.coeff = g.p(0.1) ? -mdot : mdot; }
            else {
                f.coeff = mdot / 1e6;
                if (f.kind == 2) { f.primary = g.pick(prim); f.coeff *= 0.1; }
                if (g.p(0.5)) { f.pf = g.i(1, 3); f.pc = f.pf == 2 ? 1e3 : 1; }
            }
            p.F.push_back(f);
            o << " flow" << f.kind << " " << f.from << ">" << f.to << " " << f.coeff << (f.tf ? " t" : "") << " pf" << f.pf;
        }
    }
    desc = o.str();
    return p;
}

// ---- C21 -----------------------------------------------------------------------------

static double molAtol = 1e-15;
struct Traj { vector<vector<double>> v; bool ok = true; string why; };
static vector<double> snapshot(const Plan& p, Built& b) {
    vector<double> s;
    for (size_t i = 0; i < p.R.size(); i++) {
        if (p.R[i].reservoir) continue;
        Amounts a = amounts(b, i);
        s.push_back(a.T / 1000); s.push_back(std::log(a.P)); s.push_back(std::log(a.V)); s.push_back(std::log(a.M));
        double nt = std::accumulate(a.n.begin(), a.n.end(), 0.0);
        for (double x : a.n) s.push_back(x / nt);
        for (size_t j = 0; j < a.s.size(); j++) for (double x : a.s[j]) s.push_back(x / (b.S[i][j]->area() * b.S[i][j]->thermo()->siteDensity()));
    }
    return s;
}

struct Mode { string name; int how = 0; bool precon = false, shared = false, reads = false, jac = false; vector<string> types; double rtol = 0, afac = 1; };

static Traj run(Run& r, Rng g, const Plan& p0, const Mode& m, const vector<double>& times) {
    Traj t;
    Plan p = p0;
    p.shared = m.shared;
    if (m.rtol) p.rtol = m.rtol;
    p.atol = (m.types[0].find("Mole") != string::npos ? molAtol : 1e-15) * m.afac;
    try {
        auto b = build(p, m.types);
        if (m.precon) {
            auto pc = newSystemJacobian("Adaptive");
            b->net->setPreconditioner(pc);
            b->net->setLinearSolverType("GMRES");
            AnyMap s;
            s["skip-third-bodies"] = true;
            s["skip-falloff"] = true;
            b->net->setDerivativeSettings(s);
        }
        double last = 0;
        for (double tt : times) {
            if (m.how == 0) b->net->advance(tt);
            else if (m.how == 1) {
                // internal steps while they cannot overshoot, then exactly to the end
                double dt = 1e-9 * tt;
                for (int it = 0; b->net->time() + 12 * dt < tt && it < 4000; it++) {
                    double before = b->net->time();
                    double now = b->net->step();
                    r.check("time-forward@step", now >= before, cat(before, " ", now));
                    r.near("time-reported@step", b->net->time(), now, 0);
                    dt = now - before;
                }
                if (b->net->time() > tt) throw CanteraError("harness", "overshot");
                if (b->net->time() != tt) b->net->advance(tt);
            } else if (m.how == 2) {
                int n = g.i(2, 6);
                double a = last;
                for (int k = 1; k <= n; k++) {
                    b->net->advance(k == n ? tt : a + (tt - a) * k / n);
                    if (g.p(0.4)) b->net->reinitialize();
                }
            } else if (m.how == 3) {
                // limited advances
                vector<double> lim(b->net->neq(), -1);
                b->net->initialize();
                lim.assign(b->net->neq(), -1.0);
                for (size_t i = 0; i < p.R.size(); i++) if (!p.R[i].reservoir) {
                    auto& re = b->reactor(i);
                    try { re.setAdvanceLimit("temperature", g.uni(5, 200)); } catch (CanteraError&) { r.count("limit-not-available"); }
                }
                int it = 0;
                while (b->net->time() < tt && it++ < 150) {
                    vector<double> y0(b->net->neq()), y1(b->net->neq()), l(b->net->neq());
                    double before = b->net->time();
                    double got = b->net->advance(tt, true);
                    r.check("limited-advance-time@net", got <= tt && got > before && b->net->time() == got, cat(before, " ", got, " ", tt));
                }
                if (b->net->time() < tt) b->net->advance(tt);
            }
            r.near("time-as-asked@" + m.name, b->net->time(), tt, 0);
            last = tt;
            if (m.reads) {
                vector<double> y(b->net->neq());
                b->net->getState(y.data());
                devices(r, p, *b, tt, "read");
                for (size_t i = 0; i < p.R.size(); i++) { b->R[i]->restoreState(); b->sols[i]->thermo()->setState_TP(500, 1e5); b->sols[i]->thermo()->entropy_mass(); }
                if (m.jac && p.R.size() == 1 && g.p(0.5)) { b->reactor(0).finiteDifferenceJacobian(); }
            }
            t.v.push_back(snapshot(p, *b));
        }
    } catch (CanteraError& e) {
        t.ok = false; t.why = string(e.what()).substr(0, 300);
    }
    return t;
}

static void agreement(Run& r, Rng& g) {
    string desc;
    Plan p = randomPlan(g, g.p(0.5), desc);
    p.shared = false;
    p.rtol = 1e-8; p.atol = 1e-16;
    {
        // absolute errors small against every amount (mole-based states hold kmol)
        double least = 1;
        for (auto& q : p.R) {
            if (q.reservoir) continue;
            least = std::min(least, q.P * q.vol / (GasConstant * q.T));
            for (double ar : q.area) least = std::min(least, ar * 2e-8);
        }
        molAtol = std::min(1e-15, 1e-12 * least);
        // (absolute tolerances far below roundoff spoil CVODE's difference-quotient
        // Jacobian, so no amount starts from nothing)
        for (auto& q : p.R) for (auto& x : q.X) x = std::max(x, 1e-6);
    }
    // all reactors of one family per equivalent formulation
    bool cp = g.p(0.5);
    bool ideal = p.mech != "rk";
    vector<string> fam = cp ? vector<string>{"ConstPressureReactor", "ConstPressureMoleReactor"} : vector<string>{"Reactor", "MoleReactor"};
    if (ideal) for (auto& f : vector<string>(fam)) { string q = f; size_t at = q.find("ConstPressure"); fam.push_back(at == string::npos ? "IdealGas" + q : "IdealGas" + q); }
    for (auto& q : p.R) { q.type = fam[0]; q.nsurf = 0; if (p.surf && !q.reservoir) q.nsurf = int(q.area.size()); }
    r.describe("agree " + string(cp ? "P " : "V ") + desc);
    r.sample(desc.substr(desc.size() > 300 ? desc.size() - 300 : 0));
    vector<double> times{p.tend * 0.1, p.tend * 0.37, p.tend};
    auto mk = [&](const string& nm, int how) { Mode m; m.name = nm; m.how = how; m.types.assign(p.R.size(), g.pick(fam)); return m; };
    Mode base = mk("base", 0);
    base.types.assign(p.R.size(), fam.back());
    uint64_t sd = g.u64();
    Traj A = run(r, Rng(sd), p, base, times);
    Mode tight = base; tight.rtol = 1e-10;
    Traj B = run(r, Rng(sd), p, tight, times);
    Mode loose = base; loose.rtol = 1e-6;
    Traj C = run(r, Rng(sd), p, loose, times);
    // a different sequence of steps with much smaller absolute tolerances
    if (!A.ok || !B.ok || !C.ok) { r.count("integration-refused"); return; }
    Mode other = tight; other.how = 1; other.afac = 0.1;
    Traj D = run(r, Rng(sd), p, other, times);
    if (!A.ok || !B.ok || !C.ok || !D.ok) { r.count("integration-refused"); return; }
    if (getenv("DBG")) for (auto* T : {&A, &B, &C, &D}) for (auto& v : T->v) { for (double x : v) fprintf(stderr, " %.5g", x); fprintf(stderr, "\n"); }
    // trajectories that depend on how they are followed decide nothing
    for (size_t k = 0; k < times.size(); k++) for (size_t j = 0; j < A.v[k].size(); j++) {
        if (std::fabs(A.v[k][j] - B.v[k][j]) > 1e-4 || std::fabs(D.v[k][j] - B.v[k][j]) > 1e-4 || std::fabs(C.v[k][j] - B.v[k][j]) > 1e-2) { r.count("sensitive"); return; }
    }
    r.count("trajectories-compared");
    vector<Mode> ms;
    for (auto& f : fam) { Mode m = mk("formulation-" + f, 0); m.types.assign(p.R.size(), f); ms.push_back(m); }
    ms.push_back(mk("stepped", 1)); ms.push_back(mk("many-advances", 2)); ms.push_back(mk("limited", 3));
    { Mode m = mk("read-between", 0); m.reads = m.jac = true; ms.push_back(m); }
    { Mode m = mk("shared-solution", g.i(0, 2)); m.shared = true; ms.push_back(m); }
    if (ideal && p.F.empty() && p.W.empty()) { Mode m = mk("preconditioned", g.i(0, 2)); m.types.assign(p.R.size(), cp ? "IdealGasConstPressureMoleReactor" : "IdealGasMoleReactor"); m.precon = true; ms.push_back(m); }
    for (auto& m : ms) {
        if (m.name.substr(0, 11) != "formulation" && g.p(0.4)) continue;
        Traj t = run(r, g, p, m, times);
        if (!t.ok) { r.count("integration-refused-" + m.name); if (r.verbose || getenv("SHOWREF")) fprintf(stderr, "refused %s: %s\n", m.name.c_str(), t.why.c_str()); continue; }
        if (getenv("DBG")) { fprintf(stderr, "%s %s\n", m.name.c_str(), m.types[0].c_str()); for (auto& v : t.v) { for (double x : v) fprintf(stderr, " %.5g", x); fprintf(stderr, "\n"); } }
        string why;
        auto agrees = [&](const Traj& t) {
            for (size_t k = 0; k < times.size(); k++) {
                double mx = 0;
                for (size_t q = 0; q < A.v[k].size(); q++) mx = std::max(mx, std::fabs(C.v[k][q] - B.v[k][q]));
                for (size_t j = 0; j < A.v[k].size(); j++) {
                    double tol = 3e-4 + 100 * std::fabs(A.v[k][j] - B.v[k][j]) + 100 * std::fabs(D.v[k][j] - B.v[k][j]) + 10 * std::fabs(C.v[k][j] - B.v[k][j]) + mx;
                    double d = std::fabs(t.v[k][j] - B.v[k][j]);
                    if (!(d <= tol)) { why = cat("component ", j, " of ", A.v[k].size(), " at ", times[k], ": ", t.v[k][j], " against ", B.v[k][j], " tolerance ", tol); return false; }
                }
            }
            return true;
        };
        bool ok = agrees(t);
        if (!ok) {
            // a difference in kind survives much tighter tolerances
            Mode m2 = m;
            m2.rtol = 1e-10; m2.afac = 0.1;
            Traj t2 = run(r, g, p, m2, times);
            if (!t2.ok) { r.count("tight-rerun-refused"); continue; }
            ok = agrees(t2);
            if (ok) r.count("agreed-when-tightened");
        }
        r.check("trajectory@" + m.name, ok, why + " types " + m.types[0]);
    }
    for (auto& v : B.v) r.state(vh::hashv(v));
}

static void conservation(Run& r, Rng& g, bool laws) {
    string desc;
    Plan p = randomPlan(g, g.p(0.25), desc);
    r.describe("net " + desc);
    r.sample(desc.substr(desc.size() > 400 ? desc.size() - 400 : 0));
    auto b = build(p);
    b->net->initialize();
    balances(r, p, *b, 0, !laws, true);
    bool closed = true, adiabatic = true;
    for (auto& q : p.R) { if (q.reservoir) closed = false; if (!q.energy || constP(q.type)) adiabatic = false; }
    // (a wall moving between two different pressures does work that goes nowhere)
    for (auto& q : p.W) if (q.k != 0 || q.hasv) adiabatic = false;
    Totals t0 = totals(p, *b);
    double t = 0;
    int n = laws ? 6 : 4;
    for (int k = 0; k < n; k++) {
        try {
            if (g.p(0.5)) t = b->net->step();
            else { double tt = t + g.u() * p.tend / n + 1e-12 * p.tend; b->net->advance(tt); t = tt; }
        } catch (CanteraError& e) {
            r.count("integration-refused");
            if (r.verbose) fprintf(stderr, "refused: %s\n", string(e.what()).substr(0, 600).c_str());
            return;
        }
        r.near("time@net", b->net->time(), t, 0);
        devices(r, p, *b, t, "state");
        if (!laws) {
            r.state(vh::hashv(snapshot(p, *b)));
            Totals t1 = totals(p, *b);
            if (closed) {
                double etot = 0;
                for (auto& [e, v] : t0.el) etot += std::fabs(v);
                for (auto& [e, v] : t0.el) r.near("total-elements@closed", t1.el[e], v, 1e-6, 1e-8 * etot, e);
                if (adiabatic) {
                    r.near("total-energy@closed", t1.U, t0.U, 0, 1e-6 * t0.scaleU);
                    r.near("total-volume@closed", t1.V, t0.V, 1e-9);
                }
            }
            balances(r, p, *b, t, true, true);
            b->net->reinitialize();
        } else {
            balances(r, p, *b, t, false, true);
            // change parameters on the way
            if (g.p(0.3) && !p.F.empty()) {
                size_t d = g.idx(p.F.size());
                if (p.F[d].kind == 0) {
                    p.F[d].coeff *= g.uni(0.2, 2); p.F[d].tf = false;
                    dynamic_cast<MassFlowController*>(b->F[d].get())->setMassFlowRate(p.F[d].coeff);
                } else if (p.F[d].kind == 1) { p.F[d].coeff *= g.uni(0.2, 2); dynamic_cast<Valve*>(b->F[d].get())->setValveCoeff(p.F[d].coeff); }
            }
            if (g.p(0.3) && !p.W.empty()) {
                size_t d = g.idx(p.W.size());
                p.W[d].A *= g.uni(0.5, 2); p.W[d].U = g.logu(0.1, 1e3);
                b->W[d]->setArea(p.W[d].A);
                b->W[d]->setThermalResistance(1 / p.W[d].U);
            }
            b->net->reinitialize();
            r.state(cat(p.F.size(), p.W.size(), desc.size() % 97, k, int(std::log10(t + 1e-12) * 20)));
        }
    }
}

int main(int argc, char** argv) {
    Run r = parse(argc, argv);
    ctInit();
    return drive(r, [](Run& r, size_t, Rng& g) {
        if (r.prop == "C21") agreement(r, g);
        else conservation(r, g, r.prop == "C22");
    });
}
