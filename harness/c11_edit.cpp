// C11: a phase and mechanism edited in place, in random order and with evaluations in between,
// against one constructed from the resulting definition; rejected edits must leave no trace.
#include "gen.h"
#include "cantera/kinetics/BulkKinetics.h"
#include "cantera/kinetics/InterfaceKinetics.h"
#include "cantera/kinetics/ReactionRateFactory.h"

using namespace vh;

static const AnyMap& gri() { static AnyMap m = AnyMap::fromYamlFile(findData("gri30.yaml")); return m; }
static const AnyMap& ptc() { static AnyMap m = AnyMap::fromYamlFile(findData("ptcombust.yaml")); return m; }

// changes the numbers of a rate definition, leaving its form alone
static void scaleValue(AnyValue& v, double f) {
    if (v.is<double>()) v = v.asDouble() * f;
    else if (v.is<long int>()) v = double(v.asInt()) * f;
    else if (v.is<string>()) {
        string s = v.asString();
        size_t p = s.find(' ');
        double x = std::stod(s.substr(0, p));
        v = cat(x * f) + (p == string::npos ? "" : s.substr(p));
    }
}
static void perturbArr(AnyValue& v, Rng& g, bool top = true) {
    double fA = g.uni(0.2, 5), fE = g.uni(0.5, 1.5);
    if (v.is<AnyMap>()) {
        auto& m = v.as<AnyMap>();
        if (m.hasKey("A")) scaleValue(m["A"], fA);
        for (string k : {"Ea", "Ea0", "Ea-gas", "Ea-electron", "w"}) if (m.hasKey(k)) scaleValue(m[k], k == "w" ? 1 : fE);
        if (m.hasKey("b") && m["b"].isScalar()) m["b"] = m["b"].asDouble() + g.uni(-0.2, 0.2);
    } else if (v.is<vector<double>>()) {
        auto a = v.asVector<double>();
        a[0] *= fA; a[1] += 0.1; a[2] *= fE;
        v = a;
    } else if (v.is<vector<AnyValue>>()) {
        auto& a = v.as<vector<AnyValue>>();
        scaleValue(a[0], fA); scaleValue(a[2], fE);
    }
}
static bool perturbReaction(AnyMap& n, Rng& g) {
    bool done = false;
    for (string k : {"rate-constant", "low-P-rate-constant", "high-P-rate-constant", "sticking-coefficient"})
        if (n.hasKey(k) && g.p(0.9)) {
            if (k == "sticking-coefficient") {
                auto& m = n[k].as<AnyMap>();
                scaleValue(m["A"], g.uni(0.1, 1));
            } else perturbArr(n[k], g);
            done = true;
        }
    if (n.hasKey("rate-constants")) for (auto& m : n["rate-constants"].asVector<AnyMap>()) { AnyValue v; v = m; perturbArr(v, g); m = v.as<AnyMap>(); done = true; }
    if (n.hasKey("data") && n["data"].is<vector<vector<double>>>()) { auto d = n["data"].as<vector<vector<double>>>(); d[0][0] += g.uni(-1, 1); n["data"] = d; done = true; }
    if (n.hasKey("coverage-dependencies") && g.p(0.5)) {
        auto& cd = n["coverage-dependencies"].as<AnyMap>();
        vector<string> ks;
        for (auto& [s, v] : cd) ks.push_back(s);
        for (auto& s : ks) if (cd[s].is<AnyMap>()) { auto& m = cd[s].as<AnyMap>(); if (m["a"].isScalar()) { m["a"] = m["a"].asDouble() * g.uni(0, 1); done = true; } }
    }
    if (n.hasKey("Troe") && g.p(0.7)) { n["Troe"]["A"] = g.uni(0.1, 0.9); done = true; }
    if (n.hasKey("SRI") && g.p(0.7)) { n["SRI"]["A"] = g.uni(0.1, 2); done = true; }
    if (n.hasKey("Tsang") && g.p(0.7)) { n["Tsang"]["A"] = g.uni(0.1, 0.5); done = true; }
    return done;
}
static void perturbSpecies(AnyMap& n, Rng& g) {
    auto& th = n["thermo"].as<AnyMap>();
    string model = th["model"].asString();
    if (model == "NASA7") {
        auto d = th["data"].as<vector<vector<double>>>();
        double a1 = g.uni(-0.3, 0.3), a6 = g.uni(-3000, 3000), a7 = g.uni(-1, 1);
        for (auto& v : d) { v[0] += a1; v[5] += a6; v[6] += a7; }
        th["data"] = d;
    } else {
        for (string k : {"h0", "s0", "cp0"}) if (th.hasKey(k)) scaleValue(th[k], g.uni(0.8, 1.2));
    }
}

static AnyMap listed(const AnyMap& file, const string& nm) {
    AnyMap c = file;
    AnyMap m = c["species"].getMapWhere("name", nm);
    return m;
}

struct Def {
    AnyMap units;                    // units of the document
    string unitsText, tail;
    vector<AnyMap> gasSp, surfSp, gasRx, surfRx;
    string site;
    bool surf = false, motz = false;
    // document with the first ng species, and reactions
    AnyMap root(size_t ng, size_t nrg, size_t nrs) const {
        AnyMap r;
        r = AnyMap::fromYamlString("units: " + unitsText + "\n");
        vector<AnyMap> ph;
        AnyMap gasPh = AnyMap::fromYamlString("{name: gas, thermo: ideal-gas, elements: [H, O, C, N, Ar], kinetics: bulk, reactions: [gas-reactions], state: {T: 900 K, P: 1 atm}}");
        vector<string> names;
        vector<AnyMap> sp;
        for (size_t i = 0; i < ng; i++) { sp.push_back(gasSp[i]); names.push_back(gasSp[i]["name"].asString()); }
        gasPh["species"] = names;
        ph.push_back(gasPh);
        if (surf) {
            AnyMap s = AnyMap::fromYamlString("{name: surf, thermo: ideal-surface, adjacent-phases: [gas], elements: [Pt, H, O, C], kinetics: surface, reactions: [surf-reactions], state: {T: 900 K, P: 1 atm}}");
            s["site-density"] = site;
            if (motz) s["Motz-Wise"] = true;
            names.clear();
            for (auto& m : surfSp) { sp.push_back(m); names.push_back(m["name"].asString()); }
            s["species"] = names;
            ph.push_back(s);
        }
        r["phases"] = ph;
        r["species"] = sp;
        r["gas-reactions"] = vector<AnyMap>(gasRx.begin(), gasRx.begin() + nrg);
        r["surf-reactions"] = vector<AnyMap>(surfRx.begin(), surfRx.begin() + nrs);
        // definitions keep the units they were read with
        return r;
    }
};

struct Pair { shared_ptr<Solution> gas, surf; Solution& main() { return surf ? *surf : *gas; } };
static Pair build(const AnyMap& root, bool surf) {
    Pair p;
    p.gas = phaseFrom(root, "gas");
    if (surf) p.surf = phaseFrom(root, "surf", {p.gas});
    return p;
}

static void setRandom(Rng& g, Pair& p, MechState* ms) {
    double T = g.uni(400, 1800), P = g.logu(1e3, 1e7);
    for (auto* t : phasesOf(p.main())) { randomBulk(*t, g); t->setState_TP(T, P); }
    *ms = saveMech(p.main());
}
static Print all(Pair& p, bool derivs) {
    Print out = mechPrint(p.main(), derivs);
    if (p.surf) for (auto& [k, v] : mechPrint(*p.gas, derivs)) out["g." + k] = v;
    return out;
}
static double Pst = OneAtm, Cst = 1;
static void compareAll(Run& r, const string& key, const Print& a, const Print& b, double T, double rtol) {
    r.check(key + ":keys", a.size() == b.size(), cat(a.size(), " vs ", b.size()));
    for (auto& [k, vb] : b) {
        auto it = a.find(k);
        if (!r.check(key + ":available", it != a.end(), k)) continue;
        string pre, nm = k;
        if (startsWith(nm, "g.")) { pre = "g."; nm = nm.substr(2); }
        size_t d = nm.find('.');
        pre += nm.substr(0, d + 1);
        nm = nm.substr(d + 1);
        // comparePart knows the kinetics prefix
        Print ref;
        size_t u = nm.rfind("_dd");
        if ((pre == "k." || pre == "g.k.") && u != string::npos && u + 4 == nm.size()) {
            // differences at slightly different states carry the rounding of the values
            double per = nm.back() == 'T' ? T : nm.back() == 'P' ? Pst : Cst, mx = 0, mb = 0;
            for (double x : vb) if (std::isfinite(x)) mx = std::max(mx, std::fabs(x));
            for (string q : {nm.substr(0, u), string("getFwdRatesOfProgress"), string("getRevRatesOfProgress"), string("getRevRateConstants"), string("getEquilibriumConstants")}) {
                if (q != nm.substr(0, u) && nm.find("Constant") != string::npos) continue;
                auto it2 = b.find(pre + q);
                if (it2 != b.end()) for (double x : it2->second) if (std::isfinite(x)) mb = std::max(mb, std::fabs(x));
            }
            if (!r.check(key + ":" + nm + "-size", it->second.size() == vb.size())) continue;
            for (size_t q = 0; q < vb.size(); q++)
                if (!r.near(key + ":" + nm, it->second[q], vb[q], 1e-4, 1e-6 * mx + 1e-6 * mb / per, cat("[", q, "]"))) break;
            continue;
        }
        if (pre == "g.k.") {
            for (auto& [kk, vv] : b) if (startsWith(kk, "g.")) ref[kk.substr(2)] = vv;
            comparePart(r, key, nm, it->second, vb, ref, "k.", T, rtol);
        } else comparePart(r, key, nm, it->second, vb, b, pre, T, rtol);
    }
}
static string defPrint(Pair& p) {
    string s;
    auto one = [&](Solution& sol) {
        auto& th = *sol.thermo();
        for (auto* e : {"E"}) (void)e;
        s += vec(th.elementNames()) + vec(th.speciesNames());
        for (size_t k = 0; k < th.nSpecies(); k++) s += th.species(k)->parameters(&th, false).toYamlString();
        auto& kin = *sol.kinetics();
        for (size_t i = 0; i < kin.nReactions(); i++) s += cat(kin.multiplier(i), " ") + kin.reaction(i)->parameters(false).toYamlString();
    };
    one(*p.gas);
    if (p.surf) one(*p.surf);
    return s;
}

int main(int argc, char** argv) {
    Run r = parse(argc, argv);
    ctInit();
    return drive(r, [](Run& r, size_t i, Rng& g) {
        bool surf = i % 3 == 2;
        static const vector<string> forced = {"", "", "falloff", "plog", "Chebyshev", "three-body", "chemically-activated", "linear-Burke", "two-temperature-plasma", "Blowers-Masel", ""};
        GMech gm = randomMechanism(g, int(g.i(2, 9)), surf ? int(g.i(2, 6)) : 0, forced[i % forced.size()]);
        AnyMap doc = AnyMap::fromYamlString(gm.yaml);
        doc.applyUnits();
        Def d;
        d.unitsText = gm.unitsText;
        d.surf = surf;
        if (surf) {
            AnyMap sp = doc["phases"].getMapWhere("name", "surf");
            d.site = cat(gm.siteDensity) + " kmol/m^2";
            d.motz = sp.hasKey("Motz-Wise");
        }
        for (auto& n : gm.gasNames) { d.gasSp.push_back(listed(gri(), n)); }
        if (surf) for (auto& n : gm.surfNames) {
            bool own = false;
            if (doc.hasKey("species")) for (auto& m : doc["species"].asVector<AnyMap>()) if (m["name"].asString() == n) { d.surfSp.push_back(m); own = true; }
            if (!own) d.surfSp.push_back(listed(ptc(), n));
        }
        for (auto& x : gm.gas) (void)x;
        auto rx = [&](const string& k) { vector<AnyMap> v; if (doc.hasKey(k) && doc[k].is<vector<AnyMap>>()) v = doc[k].asVector<AnyMap>(); return v; };
        d.gasRx = rx("gas-reactions");
        d.surfRx = rx("surf-reactions");
        string log;
        r.describe("generated " + gm.yaml);
        // species of the start
        size_t nsp = g.p(0.5) ? d.gasSp.size() : size_t(g.i(2, long(d.gasSp.size())));
        // third bodies by default efficiency and reactions need their species; order the edits so that they have them
        auto needs = [&](const GRx& x) {
            std::set<string> s;
            for (auto& [n, c] : x.r) s.insert(n);
            for (auto& [n, c] : x.p) s.insert(n);
            for (auto& [n, o] : x.orders) s.insert(n);
            for (auto& [n, o] : x.eff) s.insert(n);
            if (x.type == "linear-Burke") for (auto& n : gm.gasNames) s.insert(n);
            return s;
        };
        auto ready = [&](const GRx& x, size_t n) {
            auto s = needs(x);
            for (size_t k = n; k < d.gasSp.size(); k++) if (s.count(d.gasSp[k]["name"].asString())) return false;
            return true;
        };
        // reactions: those needing few species first
        vector<size_t> order;
        {
            vector<std::pair<size_t, size_t>> o;
            for (size_t q = 0; q < gm.gas.size(); q++) {
                size_t last = 0;
                auto s = needs(gm.gas[q]);
                for (size_t k = 0; k < d.gasSp.size(); k++) if (s.count(d.gasSp[k]["name"].asString())) last = k;
                o.push_back({std::max(last, nsp), q});
            }
            std::stable_sort(o.begin(), o.end());
            vector<AnyMap> n;
            vector<GRx> gr;
            for (auto& [l, q] : o) { n.push_back(d.gasRx[q]); gr.push_back(gm.gas[q]); }
            d.gasRx = n;
            gm.gas = gr;
        }
        size_t nrg = 0;
        while (nrg < d.gasRx.size() && ready(gm.gas[nrg], nsp) && g.p(0.5)) nrg++;
        size_t nrs = surf && nsp == d.gasSp.size() ? g.idx(d.surfRx.size() + 1) : 0;
        if (surf) { nsp = d.gasSp.size(); }
        Pair A = build(d.root(nsp, nrg, nrs), surf);
        Kinetics& gk = *A.gas->kinetics();
        Kinetics* sk = surf ? A.surf->kinetics().get() : nullptr;
        ThermoPhase& gt = *A.gas->thermo();
        vector<double> mg(d.gasRx.size(), 1.0), ms(d.surfRx.size(), 1.0);
        MechState st;
        setRandom(g, A, &st);
        AnyMap ur = AnyMap::fromYamlString("units: " + d.unitsText + "\n");
        UnitSystem us = ur.units();
        // reactions added or replaced are read in the context of the document's units
        auto react = [&](const AnyMap& n, Kinetics& k) {
            AnyMap c = n;
            AnyMap docr = AnyMap::fromYamlString("units: " + d.unitsText + "\n");
            docr["r"] = vector<AnyMap>{c};
            docr.applyUnits();
            return newReaction(docr["r"].asVector<AnyMap>()[0], k);
        };
        auto rejected = [&](const string& what, const std::function<void()>& f) {
            r.count("rejected-edit:" + what);
            string d0 = defPrint(A);
            Print p0 = all(A, false);
            bool threw = false;
            string msg;
            try { f(); } catch (CanteraError& e) { threw = true; msg = e.what(); }
            log += " !" + what;
            if (!r.check("rejected@" + what, threw, "the edit was accepted:" + log)) return false;
            string d1;
            try { d1 = defPrint(A); } catch (CanteraError& e) { d1 = e.what(); }
            size_t q = 0;
            while (q < d0.size() && q < d1.size() && d0[q] == d1[q]) q++;
            if (!r.check("rejected-definition@" + what, d1 == d0, cat("differs at ", q, ": ", d0.substr(q > 40 ? q - 40 : 0, 100), " / ", d1.substr(std::min(d1.size(), q > 40 ? q - 40 : 0), 100), log))) return false;
            bool ok = r.viol_counts.empty();
            // caches dropped by the edit may not change anything either
            Print p1;
            try { p1 = all(A, false); } catch (CanteraError& e) { r.check("rejected-behaviour@" + what, false, e.what()); return false; }
            compareAll(r, "rejected-behaviour@" + what, p1, p0, A.gas->thermo()->temperature(), 1e-13);
            restoreMech(A.main(), st);
            return ok;
        };
        int nops = int(g.i(4, 16));
        bool bad = false;
        for (int op = 0; op < nops && !bad; op++) {
            size_t before = r.viol_counts.size();
            switch (g.i(0, 13)) {
            case 0: case 1:
                if (nsp < d.gasSp.size()) {
                    log += " +" + d.gasSp[nsp]["name"].asString();
                    gt.addUndefinedElements();
                    gt.addSpecies(newSpecies(d.gasSp[nsp]));
                    gt.initThermo();
                    gk.resizeSpecies();
                    gk.resizeReactions();
                    nsp++;
                    r.count("add-species");
                    setRandom(g, A, &st);
                }
                break;
            case 2: case 3:
                if (nrg < d.gasRx.size() && ready(gm.gas[nrg], nsp)) {
                    log += cat(" +R", nrg);
                    r.check("add-reaction", gk.addReaction(react(d.gasRx[nrg], gk)), "not added");
                    nrg++;
                }
                break;
            case 4:
                if (surf && nrs < d.surfRx.size()) {
                    log += cat(" +S", nrs);
                    r.check("add-surface-reaction", sk->addReaction(react(d.surfRx[nrs], *sk)), "not added");
                    nrs++;
                }
                break;
            case 5: case 6: {
                bool s = surf && nrs && g.p(0.6);
                size_t n = s ? nrs : nrg;
                if (!n) break;
                size_t q = g.idx(n);
                auto& node = s ? d.surfRx[q] : d.gasRx[q];
                AnyMap c = node;
                if (!perturbReaction(c, g)) break;
                Kinetics& k = s ? *sk : gk;
                log += cat(s ? " mS" : " mR", q);
                k.modifyReaction(q, react(c, k));
                node = c;
                r.count("modify-reaction");
                break;
            }
            case 7: {
                bool s = surf && g.p(0.5);
                auto& v = s ? d.surfSp : d.gasSp;
                size_t q = g.idx(s ? v.size() : nsp);
                AnyMap c = v[q];
                perturbSpecies(c, g);
                log += " m" + v[q]["name"].asString();
                auto& th = s ? *A.surf->thermo() : gt;
                th.modifySpecies(q, newSpecies(c));
                v[q] = c;
                gk.invalidateCache();
                if (sk) sk->invalidateCache();
                r.count("modify-species");
                break;
            }
            case 8: {
                bool s = surf && nrs && g.p(0.5);
                size_t n = s ? nrs : nrg;
                if (!n) break;
                size_t q = g.idx(n);
                double f = g.pick({0.0, 1.0, 2.0, 0.37});
                (s ? *sk : gk).setMultiplier(q, f);
                (s ? ms : mg)[q] = f;
                log += cat(s ? " xS" : " xR", q, "=", f);
                r.count("set-multiplier");
                break;
            }
            case 9: case 10: {   // evaluate something
                Print out;
                for (int e = 0; e < 3; e++) kinQuantity(surf && g.p(0.5) ? *sk : gk, g.idx(40), out);
                break;
            }
            case 11: setRandom(g, A, &st); break;
            default: {   // rejected edits
                bool s = surf && g.p(0.5);
                Kinetics& k = s ? *sk : gk;
                size_t n = s ? nrs : nrg;
                auto& rx = s ? d.surfRx : d.gasRx;
                switch (g.i(0, 13)) {
                case 0: rejected("duplicate-species", [&] { gt.addSpecies(newSpecies(d.gasSp[0])); }); break;
                case 1: rejected("undefined-element", [&] { AnyMap c = d.gasSp[0]; c["name"] = "newone"; c["composition"] = AnyMap::fromYamlString("{H: 1, Xx: 1}");
                            gt.throwUndefinedElements(); gt.addSpecies(newSpecies(c)); }); break;
                case 2: rejected("undeclared-species", [&] { k.addReaction(react(AnyMap::fromYamlString("{equation: H + NEWSP <=> OH, rate-constant: [1, 0, 0]}"), k)); }); break;
                case 3: rejected("unbalanced", [&] { string eq = s ? "H(S) + O(S) => H2O(S)" : gt.speciesIndex("O2") != npos && gt.speciesIndex("O") != npos ? "O2 => O" : gt.speciesName(0) + " => 2 " + gt.speciesName(0);
                            k.addReaction(react(AnyMap::fromYamlString("{equation: " + eq + ", rate-constant: [1, 0, 0]}"), k)); }); break;
                case 4: if (!s) rejected("undeclared-third-body", [&] { string a = gt.speciesName(0);
                            k.addReaction(react(AnyMap::fromYamlString("{equation: 2 " + a + " + M <=> 2 " + a + " + M, type: three-body, rate-constant: [1, 0, 0], efficiencies: {NEWSP: 2}}"), k)); }); break;
                case 5: rejected("modify-out-of-range", [&] { k.modifyReaction(n, react(AnyMap::fromYamlString(s ? "{equation: H(S) => H(S), rate-constant: [1, 0, 0]}" : "{equation: " + gt.speciesName(0) + " => " + gt.speciesName(0) + ", rate-constant: [1, 0, 0]}"), k)); }); break;
                case 6: if (n) {
                        size_t q = g.idx(n);
                        string nm = s ? "H(S)" : gt.speciesName(nsp - 1);
                        auto ra = k.reaction(q);
                        if (ra->equation() == nm + " => " + nm) break;
                        rejected("modify-other-equation", [&] { k.modifyReaction(q, react(AnyMap::fromYamlString("{equation: " + nm + " => " + nm + ", rate-constant: [1, 0, 0]}"), k)); });
                    }
                    break;
                case 7: if (n) {   // same reaction, other form of rate
                        size_t q = g.idx(n);
                        auto ra = k.reaction(q);
                        string type = ra->rate()->type(), eq = ra->equation();
                        AnyMap c = rx[q];
                        if (!s && type == "Arrhenius" && !ra->thirdBody()) {
                            rejected("modify-other-rate", [&] { AnyMap m = AnyMap::fromYamlString("{type: Chebyshev, temperature-range: [300, 2000], pressure-range: [1, 1e5], data: [[1.0]]}"); m["equation"] = eq;
                                k.modifyReaction(q, react(m, k)); });
                        } else if (!s && (type == "falloff" || type == "chemically-activated")) {
                            // another blending function is another evaluator: may be accepted or refused
                            AnyMap old = c;
                            for (string b : {"Troe", "SRI", "Tsang"}) c.erase(b);
                            if (!old.hasKey("Troe")) c["Troe"] = AnyMap::fromYamlString("{A: 0.5, T3: 100, T1: 1000}");
                            string d0 = defPrint(A);
                            Print p0 = all(A, false);
                            try {
                                k.modifyReaction(q, react(c, k));
                                rx[q] = c;
                                log += cat(" mB", q);
                                r.count("modify-blending-accepted");
                            } catch (CanteraError& e) {
                                log += cat(" !mB", q);
                                r.check("rejected-definition@modify-blending", defPrint(A) == d0, cat("reaction ", q, " ", e.what()));
                                compareAll(r, "rejected-behaviour@modify-blending", all(A, false), p0, gt.temperature(), 1e-13);
                            }
                        } else if (s && type.find("sticking") != string::npos) {
                            rejected("modify-other-rate", [&] { AnyMap m = AnyMap::fromYamlString("{rate-constant: {A: 1, b: 0, Ea: 0}}"); m["equation"] = eq; k.modifyReaction(q, react(m, k)); });
                        }
                    }
                    break;
                case 8: rejected("modify-species-name", [&] { gt.modifySpecies(0, newSpecies(d.gasSp[1])); }); break;
                case 9: rejected("modify-species-composition", [&] { AnyMap c = d.gasSp[0]; c["composition"] = AnyMap::fromYamlString("{H: 7}"); gt.modifySpecies(0, newSpecies(c)); }); break;
                case 10: rejected("modify-species-thermo-type", [&] { AnyMap c = d.gasSp[0]; c["thermo"] = AnyMap::fromYamlString("{model: constant-cp, h0: 1, s0: 2, cp0: 3}"); gt.modifySpecies(0, newSpecies(c)); }); break;
                case 13: rejected("modify-species-pressure", [&] { AnyMap c = d.gasSp[0]; c["thermo"]["reference-pressure"] = 2e5; gt.modifySpecies(0, newSpecies(c)); }); break;
                case 11: rejected("add-species-other-pressure", [&] { AnyMap c = d.gasSp[0]; c["name"] = "newone"; c["thermo"]["reference-pressure"] = 2e5; gt.addSpecies(newSpecies(c)); }); break;
                case 12: if (s) rejected("sticking-two-gases", [&] { k.addReaction(react(AnyMap::fromYamlString("{equation: H2 + O + PT(S) => H2O + PT(S), sticking-coefficient: [1, 0, 0]}"), k)); });
                    else if (n) {
                        size_t q = g.idx(n);
                        if (!k.reaction(q)->duplicate && k.reaction(q)->reversible) { /* duplicates are found by checkDuplicates */ }
                    }
                    break;
                }
            }
            }
            bad = r.viol_counts.size() > before;
        }
        if (bad) return;
        r.describe("generated " + gm.yaml + " edits:" + log);
        r.state(std::hash<string>()(gm.yaml + log));
        AnyMap fin = d.root(nsp, nrg, nrs);
        Pair B = build(fin, surf);
        for (size_t q = 0; q < nrg; q++) if (mg[q] != 1) B.gas->kinetics()->setMultiplier(q, mg[q]);
        for (size_t q = 0; q < nrs; q++) if (ms[q] != 1) B.surf->kinetics()->setMultiplier(q, ms[q]);
        {
            string d0 = defPrint(A), d1 = defPrint(B);
            size_t q = 0;
            while (q < d0.size() && q < d1.size() && d0[q] == d1[q]) q++;
            size_t w = q > 80 ? q - 80 : 0;
            r.check("definition", d0 == d1, cat("...", d0.substr(std::min(d0.size(), w), 160), " / ", d1.substr(std::min(d1.size(), w), 160)));
        }
        for (int t = 0; t < 3; t++) {
            // the first comparison keeps the state in which the last edit was made
            if (t) setRandom(g, A, &st); else st = saveMech(A.main());
            Pst = gt.pressure();
            Cst = gt.molarDensity();
            Print a = all(A, true);
            restoreMech(B.main(), st);
            Print b = all(B, true);
            compareAll(r, t ? "edited" : "edited-in-place", a, b, gt.temperature(), 1e-10);
        }
        if (i < 3) r.sample(log);
    });
}
