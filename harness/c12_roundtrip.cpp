// C12: a solution written as YAML and loaded again is the same solution.
#include "gen.h"
#include "cantera/base/YamlWriter.h"
using namespace vh;

static string K;

static std::map<string, string> outUnits(Rng& g) {
    std::map<string, string> u;
    UnitChoice c = randomUnits(g);
    if (g.p(0.7)) u["length"] = c.len;
    if (g.p(0.7)) u["quantity"] = c.qty;
    if (g.p(0.7)) u["activation-energy"] = c.act;
    if (g.p(0.5)) u["pressure"] = c.prs;
    if (g.p(0.4)) u["mass"] = g.pick({string("g"), string("kg")});
    if (g.p(0.4)) u["energy"] = g.pick({string("cal"), string("J"), string("kJ"), string("eV")});
    if (g.p(0.3)) u["time"] = g.pick({string("s"), string("min"), string("ms")});
    return u;
}

static void comparePhaseDefs(Run& r, ThermoPhase& a, ThermoPhase& b, const string& where) {
    r.check("name" + K, a.name() == b.name(), cat(a.name(), " ", b.name()));
    r.check("model" + K, a.type() == b.type(), cat(a.type(), " ", b.type()));
    if (!r.check("species-names" + K, a.speciesNames() == b.speciesNames(), where)) return;
    bool el = r.check("element-names" + K, a.elementNames() == b.elementNames(), where);
    for (size_t k = 0; k < a.nSpecies(); k++) {
        if (el) for (size_t m = 0; m < a.nElements(); m++) r.check("composition" + K, a.nAtoms(k, m) == b.nAtoms(k, m), cat(a.speciesName(k)));
        r.near("charge" + K, a.charge(k), b.charge(k), 1e-13);
        r.near("molecular-weight" + K, a.molecularWeight(k), b.molecularWeight(k), 1e-12);
        { double sa = a.species(k)->size, sb = b.species(k)->size; r.near("species-size" + K, sa, sb, 1e-12); }
    }
    if (auto* s = dynamic_cast<SurfPhase*>(&a)) r.near("site-density" + K, s->siteDensity(), dynamic_cast<SurfPhase&>(b).siteDensity(), 1e-13);
    r.near("min-temp" + K, a.minTemp(), b.minTemp(), 1e-13);
    r.near("max-temp" + K, a.maxTemp(), b.maxTemp(), 1e-13);
    r.near("reference-pressure" + K, a.refPressure(), b.refPressure(), 1e-13);
}

static void compareReactions(Run& r, Kinetics& a, Kinetics& b, const string& where) {
    r.check("kinetics-model" + K, a.kineticsType() == b.kineticsType(), cat(a.kineticsType(), " ", b.kineticsType()));
    if (!r.check("reaction-count" + K, a.nReactions() == b.nReactions(), cat(a.nReactions(), " ", b.nReactions(), " ", where))) return;
    for (size_t i = 0; i < a.nReactions(); i++) {
        auto x = a.reaction(i), y = b.reaction(i);
        string at = cat(i, " ", x->equation());
        r.check("equation" + K, x->equation() == y->equation(), cat(at, " became ", y->equation()));
        r.check("reaction-type" + K, x->type() == y->type(), cat(at, " ", x->type(), " became ", y->type()));
        r.check("rate-type" + K, x->rate()->type() == y->rate()->type() && x->rate()->subType() == y->rate()->subType(), cat(at, " ", x->rate()->type(), " became ", y->rate()->type()));
        r.check("reactants" + K, x->reactants == y->reactants, at);
        r.check("products" + K, x->products == y->products, at);
        r.check("orders" + K, x->orders == y->orders, at);
        r.check("reversible" + K, x->reversible == y->reversible, at);
        r.check("duplicate" + K, x->duplicate == y->duplicate, at);
        r.check("id" + K, x->id == y->id, cat(at, " ", x->id, " / ", y->id));
        r.check("negative-orders" + K, x->allow_negative_orders == y->allow_negative_orders, at);
        r.check("nonreactant-orders" + K, x->allow_nonreactant_orders == y->allow_nonreactant_orders, at);
        auto tx = x->thirdBody(), ty = y->thirdBody();
        if (r.check("third-body" + K, bool(tx) == bool(ty), at) && tx) {
            r.check("efficiency-keys" + K, tx->efficiencies.size() == ty->efficiencies.size(), at);
            for (auto& [s, e] : tx->efficiencies) r.near("efficiency" + K, e, ty->efficiency(s), 1e-13, 0, at);
            r.near("default-efficiency" + K, tx->default_efficiency, ty->default_efficiency, 1e-13, 0, at);
            r.check("collider" + K, tx->name() == ty->name(), cat(at, " ", tx->name(), " ", ty->name()));
        }
    }
}

static void comparePrintsAll(Run& r, const Print& ref, const Print& got, double T, double rtol, bool massless) {
    for (auto& [k, v] : ref) {
        auto it = got.find(k);
        size_t d = k.find('.');
        string pre = k.substr(0, d + 1), nm = k.substr(d + 1);
        string kind = pre.substr(0, 1);
        // a mixture of nothing but vacancies has no mass
        if (massless && nm.size() > 5 && nm.compare(nm.size() - 5, 5, "_mass") == 0) continue;
        if (!r.check("value-available" + K, it != got.end(), k)) continue;
        if (pre == "p0.") comparePart(r, "value" + K, nm, it->second, v, ref, pre, T, rtol);
        else comparePart(r, "value" + K, (kind == "p" ? "p." : pre) + nm, it->second, v, ref, pre, T, rtol);
    }
}

static shared_ptr<Solution> reload(Run& r, Rng& g, const string& text, const string& name) {
    r.describe(r.desc + " :: reloading\n" + text.substr(0, 200));
    AnyMap root = AnyMap::fromYamlString(text);
    if (g.p(0.5)) return newSolution(root["phases"].getMapWhere("name", name), root, "default");
    // through a file
    string f = cat("/tmp/verif-c12-", getpid(), "-", r.icase, ".yaml");
    FILE* fp = fopen(f.c_str(), "w");
    fwrite(text.data(), 1, text.size(), fp);
    fclose(fp);
    try {
        auto s = newSolution(f, name, "default");
        unlink(f.c_str());
        return s;
    } catch (...) {
        unlink(f.c_str());
        throw;
    }
}

static void compareSolutions(Run& r, Rng& g, Solution& A, Solution& B, const std::function<void()>& newState, double rtol, const string& where) {
    auto pa = phasesOf(A), pb = phasesOf(B);
    if (!r.check("phase-count" + K, pa.size() == pb.size(), where)) return;
    double T = pa[0]->temperature();
    for (size_t i = 0; i < pa.size(); i++) {
        comparePhaseDefs(r, *pa[i], *pb[i], where);
        if (pa[i]->nSpecies() != pb[i]->nSpecies()) return;
        // the state written is the state loaded
        r.near("state-T" + K, pb[i]->temperature(), pa[i]->temperature(), 1e-12, 0, pa[i]->name());
        if (pa[i]->type() != "compound-lattice") {
            r.near("state-P" + K, pb[i]->pressure(), pa[i]->pressure(), 1e-7, 1e-3, pa[i]->name());
            r.near("state-density" + K, pb[i]->density(), pa[i]->density(), 1e-9, 0, pa[i]->name());
        }
        vector<double> xa(pa[i]->nSpecies()), xb(xa.size());
        pa[i]->getMoleFractions(xa.data());
        pb[i]->getMoleFractions(xb.data());
        for (size_t k = 0; k < xa.size(); k++) r.near("state-X" + K, xb[k], xa[k], 1e-11, 1e-15, cat(pa[i]->name(), " ", pa[i]->speciesName(k)));
    }
    compareReactions(r, *A.kinetics(), *B.kinetics(), where);
    auto ta = A.transport(), tb = B.transport();
    string ma = ta ? ta->transportModel() : "none", mb = tb ? tb->transportModel() : "none";
    bool tr = r.check("transport-model" + K, ma == mb, cat(ma, " became ", mb)) && ma != "none";
    (void)tr;
    if (A.kinetics()->nReactions() != B.kinetics()->nReactions()) return;
    if (A.thermo()->type() == "compound-lattice") return;   // C02 records that its saved state is incomplete
    for (int s = 0; s < 2; s++) {
        if (s) { MechState was = saveMech(A); try { newState(); } catch (CanteraError&) { restoreMech(A, was); } T = pa[0]->temperature(); }
        restoreMech(B, saveMech(A));
        Print ref = mechPrint(A, false), got = mechPrint(B, false);
        vector<double> xs(pa[0]->nSpecies());
        pa[0]->getMoleFractions(xs.data());
        if (*std::max_element(xs.begin(), xs.end()) > 1 - 1e-6)
            for (auto* p : {&ref, &got}) for (auto it = p->begin(); it != p->end();) it = it->first[0] == 't' && (it->first.find("Mix") != string::npos || it->first.find("Mobil") != string::npos) ? p->erase(it) : std::next(it);
        comparePrintsAll(r, ref, got, T, rtol, pa[0]->meanMolecularWeight() < 1e-3);
    }
}

static string writeOut(Rng& g, shared_ptr<Solution> s, string& how) {
    YamlWriter w;
    if (g.p(0.7)) { auto u = outUnits(g); w.setUnits(u); for (auto& [k, v] : u) how += " " + k + ":" + v; }
    if (g.p(0.3)) { w.skipUserDefined(); how += " skip-user"; }
    if (g.p(0.3)) { AnyMap h; h["description"] = string("round trip: \"test\"\nof a header"); h["mine"] = 3; w.setHeader(h); }
    w.setPrecision(17);
    w.addPhase(s);
    // the writer takes the constituents of a compound lattice only when they are given to it
    if (s->thermo()->type() == "compound-lattice") {
        AnyMap root = AnyMap::fromYamlFile(findData("thermo-models.yaml"));
        for (auto& [name, x] : s->thermo()->parameters()["composition"].asMap<double>()) {
            auto part = newSolution(root["phases"].getMapWhere("name", name), root, "default");
            w.addPhase(part);
        }
    }
    return w.toYamlString();
}

int main(int argc, char** argv) {
    Run r = parse(argc, argv);
    ctInit();
    return drive(r, [](Run& r, size_t i, Rng& g) {
        int kind = int(i % 3);
        size_t j = i / 3;
        shared_ptr<Solution> A;
        std::function<void()> st;
        string phase, how;
        double rtol = 1e-8;
        MechSpec ms;
        PhaseSpec ps;
        GMech gm;
        vector<shared_ptr<Solution>> keep;
        if (kind == 0) {
            ps = catalogue()[j % catalogue().size()];
            K = "@" + ps.name;
            r.describe(ps.name);
            AnyMap root = AnyMap::fromYamlFile(findData(ps.file));
            A = newSolution(root["phases"].getMapWhere("name", ps.phase), root, ps.name == "plasma-iso" ? "none" : "default");
            st = [&] {
                double T, P;
                randomTP(ps, g, T, P);
                // near its triple point the density solver of heptane converges by luck
                if (ps.name == "pf-heptane") T = std::max(T, 240.0);
                randomComposition(ps, *A->thermo(), g);
                A->thermo()->setState_TP(T, P);
            };
            if (isPure(ps)) rtol = 1e-5;
        } else if (kind == 1) {
            ms = mechs()[j % mechs().size()];
            if (ms.big && !g.p(0.3)) ms = mechs()[0];
            K = "@" + ms.name;
            r.describe(ms.name);
            static const vector<string> trs = {"mixture-averaged", "multicomponent", "unity-Lewis-number", "mixture-averaged-CK", "multicomponent-CK", "-"};
            A = freshMech(ms);
            if (A->transport() && A->transport()->transportModel() != "none" && A->transport()->transportModel() != "ionized-gas" && g.p(0.5) && ms.name != "air9")
                A->setTransportModel(g.pick(trs) == "-" ? A->transport()->transportModel() : trs[g.idx(5)]);
            st = [&] { randomMechState(ms, *A, g, 0); };
            rtol = 1e-7;
        } else {
            bool surf = j % 2;
            gm = randomMechanism(g, int(g.i(1, 8)), surf ? int(g.i(1, 6)) : 0);
            K = "@generated";
            r.describe("generated " + gm.yaml);
            AnyMap root = AnyMap::fromYamlString(gm.yaml);
            auto gas = phaseFrom(root, "gas");
            A = surf ? phaseFrom(root, "surf", {gas}) : gas;
            keep.push_back(gas);
            st = [&] {
                double T = g.uni(400, 1800), P = g.logu(1e3, 1e7);
                for (auto* p : phasesOf(*A)) { randomBulk(*p, g); p->setState_TP(T, P); }
            };
            rtol = 1e-7;
        }
        for (int t = 0;; t++) {
            // states outside of the range of a model are refused
            try { st(); break; } catch (CanteraError&) { if (t > 20) return; }
        }
        string before = r.desc;
        string text = writeOut(g, A, how);
        r.describe(before + " written with" + how);
        r.state(std::hash<string>()(text));
        auto B = reload(r, g, text, A->name());
        r.describe(before.substr(0, 3000) + " written with" + how);
        compareSolutions(r, g, *A, *B, st, rtol, how);
        // and once more from the copy
        if (g.p(0.2)) {
            string t2 = writeOut(g, B, how);
            auto C = reload(r, g, t2, A->name());
            r.describe(before.substr(0, 3000) + " second generation, written with" + how);
            K += "-2nd";
            restoreMech(*C, saveMech(*B));
            compareSolutions(r, g, *B, *C, [&] { st(); restoreMech(*B, saveMech(*A)); }, rtol, how);
        }
        if (i < 2) r.sample(text.substr(0, 600));
    });
}
