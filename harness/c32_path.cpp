// C32: fluxes of reaction path diagrams against the rates of progress and net production rates.
#include "gen.h"
#include "mechs.h"
#include "cantera/kinetics/ReactionPath.h"
#include <regex>

using namespace vh;
typedef vector<double> V;

static double atoms(Kinetics& k, size_t i, const string& el) {
    size_t p = k.speciesPhaseIndex(i);
    auto& t = k.thermo(p);
    size_t m = t.elementIndex(el);
    return m == npos ? 0 : t.nAtoms(i - k.kineticsSpeciesIndex(0, p), m);
}
static void diagram(Run& r, Rng& g, Solution& sol, const string& nm) {
    auto kp = sol.kinetics();
    Kinetics& k = *kp;
    size_t ns = k.nTotalSpecies(), nr = k.nReactions();
    if (!nr) return;
    vector<string> els;
    for (size_t p = 0; p < k.nPhases(); p++) for (size_t m = 0; m < k.thermo(p).nElements(); m++) {
        string e = k.thermo(p).elementName(m);
        if (e != "E" && std::find(els.begin(), els.end(), e) == els.end()) els.push_back(e);
    }
    V rf(nr), rr(nr);
    k.getFwdRatesOfProgress(rf.data());
    k.getRevRatesOfProgress(rr.data());
    for (double x : rf) if (!std::isfinite(x)) return;
    for (double x : rr) if (!std::isfinite(x)) return;
    string el = g.pick(els);
    string at = "@" + nm;
    // the reference: which reactions transfer the element and how much every species exchanges
    V comp(ns), net(ns, 0), gross(ns, 0), sides(ns, 0);
    vector<char> judged(ns, 1);
    for (size_t s = 0; s < ns; s++) comp[s] = atoms(k, s, el);
    struct Pair { double fwd = 0, rev = 0; bool exact = true; };
    std::map<std::pair<size_t, size_t>, double> want;
    std::set<std::pair<size_t, size_t>> fuzzy;
    int ambiguous = 0, resolved = 0;
    for (size_t i = 0; i < nr; i++) {
        vector<size_t> re, pr;
        bool whole = true, charged = false;
        double nat = 0;
        for (size_t s = 0; s < ns; s++) {
            double a = k.reactantStoichCoeff(s, i), b = k.productStoichCoeff(s, i);
            if (a != std::floor(a) || b != std::floor(b)) whole = false;
            double d = b - a;
            for (int q = 0; q < -d; q++) re.push_back(s);
            for (int q = 0; q < d; q++) pr.push_back(s);
            if (d != 0 && k.thermo(k.speciesPhaseIndex(s)).charge(s - k.kineticsSpeciesIndex(0, k.speciesPhaseIndex(s))) != 0) charged = true;
        }
        for (size_t s = 0; s < ns; s++) sides[s] += comp[s] * (k.reactantStoichCoeff(s, i) + k.productStoichCoeff(s, i)) * (std::fabs(rf[i]) + std::fabs(rr[i]));
        for (auto s : re) nat += comp[s];
        if (nat == 0) continue;
        int nar = 0, nap = 0;
        for (auto s : re) nar += comp[s] > 0;
        for (auto s : pr) nap += comp[s] > 0;
        double natp = 0;
        for (auto s : pr) natp += comp[s];
        if (!whole || natp != nat) { for (auto s : re) judged[s] = 0; for (auto s : pr) judged[s] = 0; for (auto a : re) for (auto b : pr) { fuzzy.insert({a, b}); fuzzy.insert({b, a}); } r.count("not-integer"); continue; }
        bool exact = nar <= 1 || nap <= 1;
        if (!exact) {
            // A + BC = AB + C, decided on the whole composition
            bool ok = false;
            if (re.size() == 2 && pr.size() == 2) {
                for (int q = 0; q < 2; q++) {
                    int sg = 0; bool good = true;
                    for (auto& e : els) {
                        double d = atoms(k, pr[q], e) - atoms(k, re[0], e);
                        if (d != 0) { int t = d > 0 ? 1 : -1; if (sg && t != sg) good = false; sg = t; }
                    }
                    ok = ok || good;
                }
            }
            if (charged) { for (auto s : re) judged[s] = 0; for (auto s : pr) judged[s] = 0; }
            for (auto a : re) for (auto b : pr) { fuzzy.insert({a, b}); fuzzy.insert({b, a}); }
            if (!ok) { ambiguous++; continue; }
            resolved++;
        } else {
            for (auto a : re) for (auto b : pr) if (comp[a] > 0 && comp[b] > 0) {
                double f = comp[a] * comp[b] / nat;
                if (f * rf[i] > 0) want[{a, b}] += f * rf[i];
                if (f * rr[i] > 0) want[{b, a}] += f * rr[i];
            }
        }
        for (auto s : re) { net[s] += comp[s] * (rf[i] - rr[i]); gross[s] += comp[s] * (std::fabs(rf[i]) + std::fabs(rr[i])); if (rf[i] < 0 || rr[i] < 0) judged[s] = 0; }
        for (auto s : pr) { net[s] -= comp[s] * (rf[i] - rr[i]); gross[s] += comp[s] * (std::fabs(rf[i]) + std::fabs(rr[i])); if (rf[i] < 0 || rr[i] < 0) judged[s] = 0; }
    }
    r.count("ambiguous-reactions", ambiguous);
    r.count("partitioned-reactions", resolved);
    auto d = newReactionPathDiagram(kp, el);
    d->title = "title";
    d->build();
    V out(ns, 0), in(ns, 0);
    double big = 0;
    for (size_t n = 0; n < d->nPaths(); n++) {
        Path& p = *d->path(n);
        size_t a = p.begin()->number, b = p.end()->number;
        double f = p.flow();
        out[a] += f; in[b] += f;
        big = std::max(big, f);
        double sum = 0;
        for (auto& [q, v] : p.reactionMap()) { sum += v; size_t i = q < nr ? q : size_t(-(long)q); r.check("path-reaction" + at, i < nr && v >= 0, "path of an unknown reaction"); }
        r.near("path-sum" + at, sum, f, 1e-12);
        r.near("flow-lookup" + at, d->flow(a, b), f, 1e-14);
        r.check("no-loop" + at, a != b && f >= 0);
        if (!fuzzy.count({a, b})) r.near("flux" + at, f, want.count({a, b}) ? want[{a, b}] : 0, 1e-10, 0, cat(el, " from ", k.kineticsSpeciesName(a), " to ", k.kineticsSpeciesName(b)));
        r.count("paths");
    }
    for (auto& [ab, f] : want) if (f > 0) {
        double got = d->hasNode(ab.first) && d->hasNode(ab.second) ? d->flow(ab.first, ab.second) : 0;
        r.check("flux-complete" + at, got >= f * (1 - 1e-10), cat(el, " from ", k.kineticsSpeciesName(ab.first), " to ", k.kineticsSpeciesName(ab.second), " want ", f, " got ", got));
    }
    r.near("max-flow" + at, d->maxFlow(), big, 1e-14);
    for (size_t s = 0; s < ns; s++) if (judged[s]) {
        r.near("conservation" + at, out[s] - in[s], net[s], 1e-9, 1e-11 * gross[s] + 1e-300, cat(el, " ", k.kineticsSpeciesName(s), " out ", out[s], " in ", in[s]));
        if (gross[s] > 0) r.count("species-balanced");
    }
    if (!ambiguous) {
        V np(ns);
        k.getNetProductionRates(np.data());
        for (size_t s = 0; s < ns; s++) if (judged[s]) r.near("net-production" + at, in[s] - out[s], comp[s] * np[s], 1e-8, 1e-10 * gross[s] + 1e-13 * sides[s] + 1e-300, cat(el, " ", k.kineticsSpeciesName(s)));
        r.count("fully-resolved");
    }
    r.state(hashv(out));
    if (!(big > 0)) return;
    // the data listing
    auto sp = d->species();
    {
        std::istringstream is(d->getData());
        string line;
        std::getline(is, line);
        r.check("data-title" + at, line == "title", line);
        std::getline(is, line);
        string names;
        for (auto s : sp) names += k.kineticsSpeciesName(s) + " ";
        r.check("data-names" + at, line == names, line);
        size_t rows = 0;
        for (size_t i = 0; i < sp.size(); i++) for (size_t j = i + 1; j < sp.size(); j++) {
            string a, b; double f = NAN, q = NAN;
            is >> a >> b; string fs, qs; is >> fs >> qs;
            f = std::strtod(fs.c_str(), 0); q = std::strtod(qs.c_str(), 0);
            r.check("data-row" + at, a == k.kineticsSpeciesName(sp[i]) && b == k.kineticsSpeciesName(sp[j]), a + " " + b);
            r.near("data-flow" + at, f, d->flow(sp[i], sp[j]), 2e-5, 1e-300);
            r.near("data-flow" + at, -q, d->flow(sp[j], sp[i]), 2e-5, 1e-300);
            rows++;
        }
        is >> line;
        r.check("data-end" + at, is.eof() || line.empty());
    }
    // drawing: exactly the paths above the threshold, whatever the options, and fluxes unaffected
    std::map<std::pair<size_t, size_t>, double> flows;
    for (auto a : sp) for (auto b : sp) if (a != b) flows[{a, b}] = d->flow(a, b);
    for (int rep = 0; rep < 3; rep++) {
        bool oneWay = g.p(0.5);
        d->setFlowType(oneWay ? "OneWayFlow" : "NetFlow");
        r.check("flow-type" + at, d->flowType() == (oneWay ? "OneWayFlow" : "NetFlow"));
        d->threshold = g.logu(1e-8, 0.5);
        d->arrow_width = g.p(0.5) ? -5 : g.uni(1, 3);
        d->show_details = g.p(0.3);
        d->label_min = g.p(0.5) ? 0 : g.u();
        size_t local = g.p(0.3) ? g.pick(sp) : npos;
        d->displayOnly(local);
        d->scale = g.p(0.3) ? big * g.logu(0.1, 10) : -1;
        double mx = 0;
        for (auto& [ab, f] : flows) mx = std::max(mx, oneWay ? f : std::fabs(f - flows[{ab.second, ab.first}]));
        if (d->scale > 0) mx = d->scale;
        if (!oneWay) mx = std::max(mx, 1e-10);
        string dot = d->getDot();
        std::set<std::pair<size_t, size_t>> edges;
        static const std::regex edge("s([0-9]+) -> s([0-9]+)([^\n]*)");
        static const std::regex lab("label ?= ?\" ([-0-9.e+]+)");
        for (std::sregex_iterator it(dot.begin(), dot.end(), edge), e; it != e; ++it) {
            size_t a = std::stoul((*it)[1]), b = std::stoul((*it)[2]);
            r.check("edge-once" + at, edges.insert({a, b}).second, cat(a, " ", b));
            r.check("edge-attributes" + at, (*it)[3].str().rfind("[fontname=\"", 0) == 0, (*it)[0].str());
            double f = flows[{a, b}];
            if (!oneWay) f -= flows[{b, a}];
            r.check("edge-threshold" + at, f / mx >= d->threshold * (1 - 1e-9), cat(k.kineticsSpeciesName(a), " -> ", k.kineticsSpeciesName(b), " ", f / mx));
            if (local != npos) r.check("edge-local" + at, a == local || b == local);
            size_t st = it->position() + it->length();
            size_t nx = dot.find(';', st);
            std::smatch m;
            string rest = dot.substr(st, nx - st);
            if (f / mx > d->label_min * (1 + 1e-9)) {
                bool has = std::regex_search(rest, m, lab);
                r.check("edge-label" + at, has, rest);
                if (has) r.near("edge-label-value" + at, std::stod(m[1]), f / mx, 6e-3);
            }
            r.count("edges");
        }
        for (auto& [ab, f] : flows) {
            double v = oneWay ? f : f - flows[{ab.second, ab.first}];
            if (local != npos && ab.first != local && ab.second != local) continue;
            if (v / mx > d->threshold * (1 + 1e-9)) r.check("edge-missing" + at, edges.count(ab), cat(k.kineticsSpeciesName(ab.first), " -> ", k.kineticsSpeciesName(ab.second), " ", v / mx));
        }
        bool same = true;
        for (auto& [ab, f] : flows) same = same && d->flow(ab.first, ab.second) == f;
        r.check("display-only" + at, same, "drawing changed the fluxes");
        std::vector<size_t> vis;
        for (auto s : sp) {
            bool shown = dot.find(cat("\ns", s, " [ fontname")) != string::npos;
            bool used = false;
            for (auto& e : edges) used = used || e.first == s || e.second == s;
            if (used) r.check("node-shown" + at, shown, k.kineticsSpeciesName(s));
        }
        r.state(std::hash<string>()(dot));
    }
    // excluding a species only removes its paths; including one changes nothing
    {
        auto q = newReactionPathDiagram(kp, el);
        size_t ex = g.pick(sp), inc = g.pick(sp);
        q->exclude(k.kineticsSpeciesName(ex));
        if (inc != ex) q->include(k.kineticsSpeciesName(inc));
        q->build();
        r.check("excluded" + at, !q->hasNode(ex), k.kineticsSpeciesName(ex));
        for (auto& [ab, f] : flows) {
            double w = ab.first == ex || ab.second == ex ? 0 : f;
            double got = q->hasNode(ab.first) && q->hasNode(ab.second) ? q->flow(ab.first, ab.second) : 0;
            r.near("exclusion" + at, got, w, 1e-14);
        }
    }
    // adding diagrams
    {
        auto q = newReactionPathDiagram(kp, el), q2 = newReactionPathDiagram(kp, el);
        q->build(); q2->build();
        q->add(q2);
        for (auto& [ab, f] : flows) r.near("added" + at, q->flow(ab.first, ab.second), 2 * f, 1e-13);
    }
}

int main(int argc, char** argv) {
    Run r = parse(argc, argv);
    ctInit();
    return drive(r, [](Run& r, size_t, Rng& g) {
        if (g.p(0.5)) {
            static vector<const MechSpec*> use;
            if (use.empty()) for (auto& m : mechs()) use.push_back(&m);
            const MechSpec& m = *g.pick(use);
            if (m.big && g.p(0.5)) return;
            r.describe(m.name + " path");
            auto s = freshMech(m, "none");
            randomMechState(m, *s, g);
            diagram(r, g, *s, m.name);
        } else {
            bool surf = g.p(0.35);
            GMech m = randomMechanism(g, g.i(3, 14), surf ? g.i(1, 6) : 0);
            r.describe(surf ? "generated-surf path" : "generated path");
            AnyMap root = AnyMap::fromYamlString(m.yaml);
            auto gas = phaseFrom(root, "gas");
            auto s = surf ? phaseFrom(root, "surf", {gas}) : gas;
            V x(gas->thermo()->nSpecies());
            for (auto& v : x) v = g.p(0.15) ? 0 : g.u();
            x[0] += 0.1;
            gas->thermo()->setState_TPX(g.uni(600, 2500), g.logu(1e3, 1e7), x.data());
            if (surf) { V c(s->thermo()->nSpecies()); for (auto& v : c) v = g.u() + 1e-3; s->thermo()->setState_TP(gas->thermo()->temperature(), gas->thermo()->pressure()); dynamic_cast<SurfPhase&>(*s->thermo()).setCoverages(c.data()); }
            diagram(r, g, *s, surf ? "gen-surf" : "gen");
        }
    });
}
