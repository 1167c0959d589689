// C29: independent objects in different threads. Every case runs in child processes, so that the
// lazily created state of the library (factories, caches, units tables, message buffers) is built
// while the threads run: one child runs the tasks in concurrent threads under ThreadSanitizer,
// another runs the same tasks one after the other. Monitors: no race or lock-order report, no
// crash or deadlock, and every task computes in company what it computes alone.
#include "ct.h"
#include "mechs.h"
#include "fprint.h"
#include "gen.h"
#include "cantera/zerodim.h"
#include "cantera/zeroD/ReactorFactory.h"
#include "cantera/numerics/Func1Factory.h"
#include "cantera/equil/MultiPhase.h"
#include "cantera/kinetics/InterfaceKinetics.h"
#include "cantera/base/SolutionArray.h"
#include "cantera/kinetics/ReactionPath.h"
#include "cantera/base/logger.h"
#include "cantera/thermo/PureFluidPhase.h"
#include <thread>
#include <mutex>
#include <condition_variable>
#include <sys/wait.h>
#include <sys/stat.h>
#include <signal.h>
#include <fcntl.h>
using namespace vh;
typedef vector<double> V;

extern "C" const char* __tsan_default_suppressions() {
    // libraries that are not instrumented
    return "called_from_lib:libyaml-cpp\ncalled_from_lib:libfmt\nrace:YAML::\n";
}
struct Result { V v; string s; };
typedef std::function<void(Rng&, Result&)> Task;
static void put(Result& q, const Print& p) { for (auto& [k, v] : p) { for (double d : v) q.v.push_back(d); q.s += cat(k, ":", v.size(), ";"); } }
static void pause(Rng& g) { int k = g.i(0, 5); if (k == 0) std::this_thread::yield(); else if (k == 1) usleep(g.i(1, 300)); }

// a logger belonging to one thread
struct MyLog : public Logger {
    string* out; string tag;
    MyLog(string* o) : out(o) {}
    void write(const string& m) override { *out += m; }
    void writeendl() override { *out += "\n"; }
    void warn(const string& w, const string& m) override { *out += w + ": " + m + "\n"; }
    void error(const string& m) override { *out += "E " + m + "\n"; }
};

static void tFile(Rng& g, Result& q) {
    static const char* f[] = {"h2o2.yaml", "kineticsfromscratch.yaml", "pdep-test.yaml", "ptcombust.yaml", "sofc.yaml", "linearBurke-test.yaml", "airNASA9.yaml", "blowers-masel.yaml", "surface-phases.yaml", "lithium_ion_battery.yaml", "transport_models_test.yaml"};
    vector<const MechSpec*> ok;
    string file = f[g.i(0, 10)];
    for (auto& m : mechs()) if (m.file == file) ok.push_back(&m);
    if (ok.empty()) return;
    auto& m = *ok[g.i(0, int(ok.size()) - 1)];
    // straight from the file, through the shared cache of parsed files
    shared_ptr<Solution> s;
    if (m.iface || g.p(0.3)) s = freshMech(m); else s = newSolution(findData(m.file), m.phase, m.transport.empty() ? "default" : m.transport);
    pause(g);
    for (int i = 0; i < 2; i++) { randomMechState(m, *s, g, 0.2); put(q, mechPrint(*s, g.p(0.3))); pause(g); }
}
static void tRandom(Rng& g, Result& q) {
    auto m = randomMechanism(g, g.i(2, 8), g.p(0.5) ? g.i(1, 5) : 0, "");
    AnyMap root = AnyMap::fromYamlString(m.yaml);
    pause(g);
    auto gas = phaseFrom(root, "gas");
    auto surf = m.hasSurf ? phaseFrom(root, "surf", {gas}) : nullptr;
    gas->thermo()->setState_TP(g.uni(500, 2500), g.logu(1e3, 1e7));
    V X(gas->thermo()->nSpecies());
    for (auto& x : X) x = g.u();
    gas->thermo()->setMoleFractions(X.data());
    if (surf) surf->thermo()->setTemperature(gas->thermo()->temperature());
    put(q, kinPrint(*(surf ? surf : gas)->kinetics(), true));
    YamlWriter w;
    w.addPhase(gas);
    string y = w.toYamlString();
    size_t p = y.find("date: ");
    if (p != string::npos) y.erase(p, y.find('\n', p) - p);
    q.s += y;
}
static void tUnits(Rng& g, Result& q) {
    for (int i = 0; i < 30; i++) {
        static const char* u[] = {"cm^3/mol/s", "kcal/mol", "atm", "J/kmol/K", "bar", "eV", "Torr*m^3", "g/cm^3", "K", "erg/s", "micron^2", "uS/cm", "Pa*s", "kJ/mol"};
        string a = u[g.i(0, 13)];
        Units U(a);
        q.v.push_back(U.factor());
        q.s += U.str();
        UnitSystem us({"cm", "g", g.p(0.5) ? "mol" : "kmol", "s", "atm", "cal"});
        try { q.v.push_back(us.convertTo(g.u(), a)); q.v.push_back(us.convertFrom(2.5, a)); } catch (CanteraError& e) { q.s += e.getMessage(); }
    }
    AnyMap m;
    for (int i = 0; i < 10; i++) { string k = cat("k", i); if (i % 3 == 0) m[k] = g.u(); else if (i % 3 == 1) m[k] = V{g.u(), g.u()}; else m[k]["x"] = cat("s", g.i(0, 9)); }
    string y = m.toYamlString();
    AnyMap n = AnyMap::fromYamlString(y);
    q.s += y + n.toYamlString();
    q.s += n.keys_str();
    try { n["none"].asDouble(); } catch (CanteraError& e) { q.s += e.what(); }
    try { n["k2"]["x"].asDouble(); } catch (CanteraError& e) { q.s += e.what(); }
    q.v.push_back(n == m);
}
static void tReactor(Rng& g, Result& q) {
    auto s = newSolution(findData("h2o2.yaml"), "ohmech", "none");
    auto& t = *s->thermo();
    t.setState_TPX(g.uni(950, 1300), g.logu(5e4, 1e6), cat("H2:", g.uni(0.5, 3), ",O2:1,AR:", g.uni(0, 5)));
    static const char* ty[] = {"IdealGasReactor", "IdealGasConstPressureReactor", "Reactor", "ConstPressureReactor", "IdealGasMoleReactor", "IdealGasConstPressureMoleReactor"};
    auto r = newReactor(ty[g.i(0, 5)], s);
    ReactorNet net;
    net.addReactor(dynamic_cast<Reactor&>(*r));
    if (g.p(0.3)) { dynamic_cast<Reactor&>(*r).addSensitivityReaction(2); }
    if (g.p(0.3)) net.setMaxSteps(100000);
    double te = g.logu(1e-5, 1e-3);
    for (int i = 1; i <= 3; i++) { net.advance(te * i); q.v.push_back(r->temperature()); q.v.push_back(r->pressure()); pause(g); }
    for (size_t k = 0; k < t.nSpecies(); k++) q.v.push_back(r->massFraction(k));
}
static void tEquil(Rng& g, Result& q) {
    auto s = newSolution(findData(g.p(0.5) ? "h2o2.yaml" : "gri30.yaml"), "", "none");
    auto& t = *s->thermo();
    t.setState_TPX(g.uni(1000, 2500), g.logu(1e4, 1e7), cat("H2:", g.uni(0.5, 3), ",O2:1"));
    static const char* xy[] = {"TP", "HP", "UV", "SP", "TV"};
    static const char* sv[] = {"auto", "element_potential", "gibbs", "vcs"};
    try { t.equilibrate(xy[g.i(0, 4)], sv[g.i(0, 3)], 1e-9); } catch (CanteraError&) { q.s += "no convergence"; }
    q.v.push_back(t.temperature());
    for (size_t k = 0; k < t.nSpecies(); k++) q.v.push_back(t.moleFraction(k) > 1e-8 ? t.moleFraction(k) : 0);
}
static void tErrors(Rng& g, Result& q) {
    string log;
    setLogger(new MyLog(&log)); // owned by the library
    int id = g.i(0, 1000000);
    for (int i = 0; i < 12; i++) {
        pause(g);
        try {
            switch (g.i(0, 8)) {
            case 0: newSolution(cat("no-such-file-", id, ".yaml")); break;
            case 1: AnyMap::fromYamlString(cat("a: [1, 2\nb: {", id)); break;
            case 2: throw CanteraError(cat("task", id), "message {} of {}", i, id); break;
            case 3: newReaction(cat("reaction", id)); break;
            case 4: Units(cat("furlong", id)); break;
            case 5: newThermoModel(cat("model", id)); break;
            case 6: newReactor(cat("Reactor", id), nullptr); break;
            case 7: AnyMap::fromYamlString(cat("p: {q: ", id, "}"))["p"]["none"].asString(); break;
            case 8: fpValueCheck(cat("1.x", id)); break;
            }
            q.s += "fine;";
        } catch (CanteraError& e) { q.s += e.what(); q.s += e.getMessage() + e.getMethod(); }
        writelog("line {} of {}\n", i, id);
        writelogf("%d\n", id);
        warn_user(cat("task", id), "warning {}", i);
    }
    q.s += log;
    setLogger(new Logger());
}
static void tFunc(Rng& g, Result& q) {
    static const char* f[] = {"sin", "cos", "exp", "log", "pow"};
    for (int i = 0; i < 8; i++) {
        auto a = newFunc1(f[g.i(0, 4)], g.uni(0.5, 2));
        auto b = newFunc1("polynomial3", V{g.u(), g.u(), g.u()});
        static const char* op[] = {"sum", "diff", "product", "ratio", "composite"};
        auto c = newFunc1(op[g.i(0, 4)], a, b);
        q.v.push_back(c->eval(g.uni(0.1, 1)));
        q.s += c->write("x") + c->derivative()->write("x");
    }
}
static void tFluid(Rng& g, Result& q) {
    static const char* n[] = {"water", "nitrogen", "methane", "hydrogen", "oxygen", "carbon-dioxide", "heptane", "HFC-134a"};
    auto s = newSolution(findData("liquidvapor.yaml"), n[g.i(0, 7)], "none");
    auto& t = *s->thermo();
    double T = t.critTemperature() * g.uni(0.6, 0.95);
    for (int i = 0; i < 4; i++) {
        t.setState_Tsat(T, g.u());
        put(q, thermoPrint(t));
        pause(g);
    }
    auto w = newThermo(findData("thermo-models.yaml"), g.p(0.5) ? "HMW-NaCl-electrolyte" : "liquid-water-IAPWS95");
    w->setState_TP(g.uni(290, 350), g.logu(1e5, 1e6));
    put(q, thermoPrint(*w));
}
static void tModels(Rng& g, Result& q) {
    auto& c = catalogue();
    auto& sp = c[g.i(0, int(c.size()) - 1)];
    auto t = newThermo(findData(sp.file), sp.phase);
    pause(g);
    put(q, thermoPrint(*t));
}
static void tSurf(Rng& g, Result& q) {
    auto s = newInterface(findData("ptcombust.yaml"), "Pt_surf");
    auto& gas = *s->adjacent("gas")->thermo();
    gas.setState_TPX(g.uni(700, 1300), 1e5, cat("CH4:", g.uni(0.1, 2), ",O2:1,N2:3"));
    s->thermo()->setState_TP(gas.temperature(), 1e5);
    auto kin = std::dynamic_pointer_cast<InterfaceKinetics>(s->kinetics());
    kin->advanceCoverages(g.logu(1e-5, 1e-1));
    V c(s->thermo()->nSpecies());
    dynamic_cast<SurfPhase&>(*s->thermo()).getCoverages(c.data());
    for (double x : c) q.v.push_back(x > 1e-6 ? x : 0);
    kin->solvePseudoSteadyStateProblem();
    dynamic_cast<SurfPhase&>(*s->thermo()).getCoverages(c.data());
    for (double x : c) q.v.push_back(x > 1e-6 ? x : 0);
}
static void tArray(Rng& g, Result& q) {
    auto s = newSolution(findData("h2o2.yaml"), "ohmech", "mixture-averaged");
    auto a = SolutionArray::create(s, g.i(1, 4));
    for (int i = 0; i < a->size(); i++) { a->setLoc(i); s->thermo()->setState_TP(g.uni(300, 2000), 1e5); a->updateState(i); }
    a->addExtra("z", true);
    q.s += a->info(vector<string>{}, 10, 80);
    for (int i = 0; i < a->size(); i++) for (double d : a->getState(i)) q.v.push_back(d);
    ReactionPathBuilder b;
    ReactionPathDiagram d;
    std::ostringstream o;
    b.init(o, *s->kinetics());
    b.build(*s->kinetics(), "H", o, d, true);
    std::ostringstream dot;
    d.exportToDot(dot);
    q.s += dot.str();
}
static void tShare(Rng& g, Result& q) { // clones through serialization, and global queries
    auto s = newSolution(findData("h2o2.yaml"), "ohmech", "none");
    auto t = newThermo(s->thermo()->parameters());
    q.v.push_back(t->nSpecies());
    q.s += s->header().toYamlString() + version() + gitCommit();
    addDirectory(repoDir() + "/data");
    q.s += findInputFile("gri30.yaml");
    q.v.push_back(getDataDirectories(":").size() > 3);
    for (auto& e : elementNames()) q.v.push_back(getElementWeight(e));
    q.s += s->thermo()->report();
}

static const vector<std::pair<string, Task>> tasks{{"file", tFile}, {"random", tRandom}, {"units", tUnits}, {"reactor", tReactor}, {"equil", tEquil}, {"errors", tErrors}, {"func", tFunc}, {"fluid", tFluid}, {"models", tModels}, {"surf", tSurf}, {"array", tArray}, {"share", tShare}};

static void save(FILE* f, const Result& q) {
    size_t n = q.v.size(), m = q.s.size();
    fwrite(&n, 8, 1, f); fwrite(q.v.data(), 8, n, f); fwrite(&m, 8, 1, f); fwrite(q.s.data(), 1, m, f);
}
static bool load(FILE* f, Result& q) {
    size_t n, m;
    if (fread(&n, 8, 1, f) != 1) return false;
    q.v.resize(n);
    if (n && fread(q.v.data(), 8, n, f) != n) return false;
    if (fread(&m, 8, 1, f) != 1) return false;
    q.s.resize(m);
    return !m || fread(&q.s[0], 1, m, f) == m;
}
struct Barrier { std::mutex m; std::condition_variable c; size_t n; void wait() { std::unique_lock<std::mutex> l(m); if (--n == 0) c.notify_all(); else c.wait(l, [&]{ return n == 0; }); } };

static void runTask(const vector<int>& script, uint64_t seed, size_t i, Result& q) {
    for (size_t j = 0; j < script.size(); j++) {
        Rng g(seed * 1000 + i, j);
        q.s += "[" + tasks[script[j]].first + "]";
        try { tasks[script[j]].second(g, q); }
        catch (CanteraError& e) { q.s += string("ERR ") + e.getMessage(); }
        catch (std::exception& e) { q.s += string("STD ") + e.what(); }
    }
}
// runs one child and gives its exit status; -1 when it did not end
static int child(const std::function<void()>& f, const string& err) {
    pid_t p = fork();
    if (p == 0) {
        int fd = open(err.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
        dup2(fd, 2);
        dup2(fd, 1);
        f();
        fflush(0);
        _exit(0);
    }
    int st = 0;
    for (int i = 0; i < 18000; i++) { // three minutes
        if (waitpid(p, &st, WNOHANG) == p) return WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
        usleep(10000);
    }
    kill(p, SIGKILL);
    waitpid(p, &st, 0);
    return -1;
}
static string frameKey(const string& rep) { // the innermost library frame of each stack
    std::set<string> fs;
    size_t pos = 0;
    bool want = true;
    std::istringstream in(rep);
    string l;
    (void)pos;
    while (std::getline(in, l)) {
        if (l.find("    #") == string::npos) { want = l.find(" of size ") != string::npos || l.find("Mutex") != string::npos; continue; }
        if (!want) continue;
        size_t p = l.find("Cantera::");
        if (p == string::npos) continue;
        string nm = l.substr(p, l.find_first_of("( <", p) - p);
        if (nm.find("operator") != string::npos || nm.size() < 10) nm = l.substr(p, 40);
        fs.insert(nm);
        want = false;
        if (fs.size() == 2) break;
    }
    string o;
    for (auto& f : fs) o += (o.empty() ? "" : "|") + f;
    return o.empty() ? "unknown" : o;
}

int main(int argc, char** argv) {
    Run r = parse(argc, argv);
    char tmpl[] = "/tmp/vc29XXXXXX";
    string dir = mkdtemp(tmpl);
    int rc = drive(r, [&](Run& r, size_t icase, Rng& g) {
        int nt = g.i(2, 6);
        // all threads doing the same kind of thing, or a mixture
        int mode = g.i(0, 2);
        vector<vector<int>> sc(nt);
        int same = int(icase / r.nshards + r.shard) % int(tasks.size());
        for (auto& s : sc) { int n = g.i(1, 3); for (int j = 0; j < n; j++) s.push_back(mode == 0 ? same : mode == 1 && j == 0 ? same : g.i(0, int(tasks.size()) - 1)); }
        string d = cat(nt, " threads:");
        for (auto& s : sc) { d += " ("; for (int q : s) d += tasks[q].first + " "; d += ")"; }
        r.describe("threads " + d);
        string e1 = dir + "/par", e2 = dir + "/ser", o1 = dir + "/o1", o2 = dir + "/o2";
        unlink(o1.c_str()); unlink(o2.c_str());
        uint64_t seed = r.seed * 1000003 + icase;
        int s1 = child([&] {
            ctInit();
            make_deprecation_warnings_fatal();
            vector<Result> q(nt);
            Barrier b;
            b.n = nt;
            vector<std::thread> th;
            for (int i = 0; i < nt; i++) th.emplace_back([&, i] { b.wait(); runTask(sc[i], seed, i, q[i]); thread_complete(); });
            for (auto& t : th) t.join();
            FILE* f = fopen(o1.c_str(), "w");
            for (auto& x : q) save(f, x);
            fclose(f);
        }, e1);
        int s2 = child([&] {
            ctInit();
            make_deprecation_warnings_fatal();
            vector<Result> q(nt);
            for (int i = 0; i < nt; i++) std::thread([&, i] { runTask(sc[i], seed, i, q[i]); thread_complete(); }).join();
            FILE* f = fopen(o2.c_str(), "w");
            for (auto& x : q) save(f, x);
            fclose(f);
        }, e2);
        auto slurp = [](const string& p) { std::ifstream f(p); std::stringstream s; s << f.rdbuf(); return s.str(); };
        string log = slurp(e1), log2 = slurp(e2);
        // reports of the race detector
        size_t nrep = 0;
        for (size_t p = log.find("WARNING: ThreadSanitizer:"); p != string::npos; p = log.find("WARNING: ThreadSanitizer:", p + 10)) {
            string rep = log.substr(p, log.find("==================", p) - p);
            string kind = rep.substr(26, rep.find_first_of("(\n", 26) - 26);
            while (!kind.empty() && kind.back() == ' ') kind.pop_back();
            for (auto& c : kind) if (c == ' ') c = '-';
            r.violation(cat("race@", kind, "@", frameKey(rep)), rep.substr(0, 2500));
            nrep++;
        }
        r.count("race-monitored-threads", nt);
        r.evaluations += nt;
        if (s1 == -1) { r.violation("deadlock@" + tasks[same].first, d); return; }
        r.check("threads-end@" + tasks[same].first, s1 == 0, cat("status ", s1, " ", log.substr(0, 2500)));
        if (s1 != 0) return;
        r.check("alone-ends@" + tasks[same].first, s2 == 0, cat("status ", s2, " ", log2.substr(0, 2500)));
        if (s2 != 0) return;
        FILE *f1 = fopen(o1.c_str(), "r"), *f2 = fopen(o2.c_str(), "r");
        for (int i = 0; i < nt; i++) {
            Result a, b;
            if (!f1 || !f2 || !load(f1, a) || !load(f2, b)) { r.check("result-read@x", false); break; }
            string names;
            for (int q : sc[i]) { names += tasks[q].first + " "; r.count("task-" + tasks[q].first); }
            r.count("values", a.v.size());
            r.count("text-bytes", a.s.size());
            size_t p = 0;
            while (p < a.s.size() && p < b.s.size() && a.s[p] == b.s[p]) p++;
            r.check("same-text@" + tasks[sc[i][0]].first, a.s == b.s, cat(names, " in company: ", a.s.substr(p > 60 ? p - 60 : 0, 300), " alone: ", b.s.substr(p > 60 ? p - 60 : 0, 300)));
            if (r.check("same-size@" + tasks[sc[i][0]].first, a.v.size() == b.v.size(), names))
                for (size_t k = 0; k < a.v.size(); k++) if (!(a.v[k] == b.v[k])) { r.near("same-value@" + tasks[sc[i][0]].first, a.v[k], b.v[k], 1e-9, 0, cat(names, " value ", k)); }
            r.count("same-value");
            r.state(hashv(a.v, std::hash<string>()(a.s)));
        }
        if (f1) fclose(f1);
        if (f2) fclose(f2);
        if (r.samples.size() < 3) r.sample(d);
    });
    for (auto f : {"/par", "/ser", "/o1", "/o2"}) unlink((dir + f).c_str());
    rmdir(dir.c_str());
    return rc;
}
