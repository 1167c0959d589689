// C09: rate constants and rates of progress equal the rate expressions in the input.
#include "gen.h"
#include "cantera/kinetics/Reaction.h"
using namespace vh;

static void compareRates(Run& r, Kinetics& kin, const vector<GRx>& rx, const Env& e, const string& what) {
    size_t nr = kin.nReactions();
    if (!r.check("reaction-count", nr == rx.size(), cat(nr, " vs ", rx.size()))) return;
    vector<double> kf(nr), f(nr), kr(nr);
    kin.getFwdRateConstants(kf.data());
    kin.getFwdRatesOfProgress(f.data());
    kin.getRevRateConstants(kr.data());
    for (size_t j = 0; j < nr; j++) {
        auto& x = rx[j];
        e.slack = 0;
        double want = x.kf(e);
        string at = cat(what, " ", x.yaml);
        if (!std::isfinite(want) || std::fabs(want) > 1e280) continue;
        // a third-body concentration that vanishes is a difference of rounded sums
        if (x.hasM && Gen::thirdBody(x, e) < 1e-3 * e.C) { r.count("no-third-body"); continue; }
        r.near("rate-constant:" + x.type, kf[j], want, 1e-9, 1e-250 + e.slack, at);
        double rop = want;
        if (x.massM) rop *= Gen::thirdBody(x, e);
        for (auto& [s, o] : x.orders) if (o != 0) rop *= std::pow(e.c.at(s), o);
        double ct = 0;
        for (auto& [s, c] : e.X) { (void)c; ct += e.c.at(s); }
        double slack = e.slack + (x.massM ? 1e-13 * ct * std::fabs(want) : 0); for (auto& [s, o] : x.orders) if (o != 0) slack *= std::pow(e.c.at(s), o);
        if (std::isfinite(rop)) r.near("rate-of-progress:" + x.type, f[j], rop, 2e-9, 1e-250 + 10 * slack, at);
        r.check("reversible:" + x.type, kin.isReversible(j) == x.rev, at);
    }
}

int main(int argc, char** argv) {
    Run r = parse(argc, argv);
    ctInit();
    return drive(r, [](Run& r, size_t i, Rng& g) {
        bool surf = i % 3 == 2;
        GMech m = randomMechanism(g, surf ? 2 : int(g.i(3, 10)), surf ? int(g.i(3, 8)) : 0);
        r.describe("generated " + m.yaml.substr(0, 3500));
        AnyMap root = AnyMap::fromYamlString(m.yaml);
        auto gas = phaseFrom(root, "gas");
        shared_ptr<Solution> sf;
        if (surf) sf = phaseFrom(root, "surf", {gas});
        auto& th = *gas->thermo();
        for (int s = 0; s < 4; s++) {
            double T = g.uni(400, 2500), P = g.logu(1e3, 1e7);
            auto X = randomX(g, th.nSpecies());
            th.setState_TPX(T, P, X.data());
            if (surf) {
                auto& sp = dynamic_cast<SurfPhase&>(*sf->thermo());
                sp.setState_TP(T, P);
                auto cov = randomX(g, sp.nSpecies(), false);
                for (auto& c : cov) c = std::max(c, 1e-12);
                sp.setCoverages(cov.data());
            }
            Env e = environment(*gas, sf.get());
            string what = cat("T=", T, " P=", P);
            compareRates(r, *gas->kinetics(), m.gas, e, what);
            if (surf) compareRates(r, *sf->kinetics(), m.surf, e, what);
            r.state(hashv({T, P, double(i)}));
        }
        if (i < 2) r.sample(m.yaml);
    });
}
