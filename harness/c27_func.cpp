// C27: function objects denote the expressions they are built from.
//
// Random expression trees are built at the same time as Func1 objects (through the
// simplifying operations and through the factory) and as an independent tree evaluated
// here in long double together with its derivative and bounds on the rounding errors.
// Values and derivative objects are compared at random points (positive and negative);
// operands must evaluate to what they evaluated to before they were combined.
#include "ct.h"
#include "cantera/numerics/Func1.h"
#include "cantera/numerics/Func1Factory.h"
using namespace vh;
typedef long double ld;

// value, bound of its rounding error in units of double epsilon, derivative, its bound
struct V { ld v, a, d, b; };
struct Node {
    string op;
    vector<double> c;
    shared_ptr<Node> l, r;
    bool smooth = true; // has derivative objects all the way down
    string str() const {
        string s = op;
        if (!c.empty()) { s += "["; for (double x : c) s += cat(x, " "); s.back() = ']'; }
        if (l) s += "(" + l->str() + (r ? ", " + r->str() : "") + ")";
        return s;
    }
};
typedef shared_ptr<Node> NP;

static V ev(const Node& n, ld x, int depth = 0);
static V leaf(const Node& n, ld x) {
    auto& c = n.c;
    ld v = 0, d = 0, m = 0, dd = 0, md = 0; // m: sum of magnitudes, dd: |second derivative|
    if (n.op == "sin") { v = sinl(c[0] * x); d = c[0] * cosl(c[0] * x); m = fabsl(v); dd = c[0] * c[0]; md = fabsl(d); }
    else if (n.op == "cos") { v = cosl(c[0] * x); d = -c[0] * sinl(c[0] * x); m = fabsl(v); dd = c[0] * c[0]; md = fabsl(d); }
    else if (n.op == "exp") { v = expl(c[0] * x); d = c[0] * v; m = v; dd = fabsl(c[0] * d); md = fabsl(d); }
    else if (n.op == "log") { v = logl(c[0] * x); d = c[0] / x; m = fabsl(v) + 1; dd = fabsl(c[0]) / (x * x); md = fabsl(d); if (!(c[0] * x > 0)) d = NAN; }
    else if (n.op == "pow") { v = powl(x, c[0]); d = c[0] == 0 ? 0 : c[0] * powl(x, c[0] - 1); m = fabsl(v); dd = fabsl(c[0] * (c[0] - 1) * powl(fabsl(x), c[0] - 2)); md = fabsl(d); }
    else if (n.op == "constant") { v = c[0]; m = fabsl(v); }
    else if (n.op == "polynomial3") { for (size_t k = 0; k < c.size(); k++) { ld p = c[k] * powl(x, c.size() - 1 - k); v += p; m += fabsl(p); size_t e = c.size() - 1 - k; if (e) { ld q = c[k] * e * powl(x, e - 1); d += q; md += fabsl(q); } if (e > 1) dd += fabsl(c[k] * e * (e - 1) * powl(x, e - 2)); } m *= 4; }
    else if (n.op == "Fourier") {
        size_t k = c.size() / 2 - 1;
        v = c[0] / 2; m = fabsl(v);
        ld w = c[k + 1];
        for (size_t j = 1; j <= k; j++) { ld a = c[j], b = c[k + 1 + j]; v += a * cosl(j * w * x) + b * sinl(j * w * x); d += j * w * (-a * sinl(j * w * x) + b * cosl(j * w * x)); m += fabsl(a) + fabsl(b); md += j * fabsl(w) * (fabsl(a) + fabsl(b)); dd += j * w * j * w * (fabsl(a) + fabsl(b)); }
    }
    else if (n.op == "Gaussian") { ld t = c[2] / (2 * sqrtl(logl(2))), y = (x - c[1]) / t; v = c[0] * expl(-y * y); d = -2 * y / t * v; m = fabsl(v) * (1 + y * y) + fabsl(d) * fabsl(c[1]); md = fabsl(d) * (1 + y * y); dd = fabsl(v) * (4 * y * y + 2) / (t * t); }
    else if (n.op == "Arrhenius") { for (size_t k = 0; k < c.size(); k += 3) { ld p = c[k] * powl(x, c[k + 1]) * expl(-c[k + 2] / x); ld q = p * (c[k + 1] / x + c[k + 2] / (x * x)); v += p; d += q; m += fabsl(p) * (1 + fabsl(c[k + 2] / x)); md += fabsl(q) * (1 + fabsl(c[k + 2] / x)); dd += fabsl(q / x) * 10 + fabsl(q * q / p); } }
    else if (n.op.substr(0, 9) == "tabulated") {
        size_t k = c.size() / 2;
        const double* t = c.data(); const double* f = t + k;
        // exactly at a table point the derivative is one-sided, and a held value ambiguous
        for (size_t j = 0; j < k; j++) if (fabsl(x - t[j]) <= 1e-12L * (1 + fabsl(x))) d = NAN;
        if (x <= t[0]) v = f[0];
        else if (x >= t[k - 1]) v = f[k - 1];
        else {
            size_t j = 0;
            while (x > t[j + 1]) j++;
            if (n.op == "tabulated-linear") { ld s = (ld(f[j + 1]) - f[j]) / (ld(t[j + 1]) - t[j]); v = f[j] + s * (x - t[j]); d += s; }
            else v = f[j];
            m = fabsl(f[j]) + fabsl(f[j + 1]);
            md = (fabsl(f[j]) + fabsl(f[j + 1])) / fabsl(t[j + 1] - t[j]);
        }
        m += fabsl(v);
        if (n.op == "tabulated-previous" && std::isnan((double) d)) v = NAN;
    }
    else if (n.op == "functor") { v = x * x * x - c[0] * x; d = 3 * x * x - c[0]; m = fabsl(x * x * x) + fabsl(c[0] * x); md = 3 * x * x + fabsl(c[0]); dd = 6 * fabsl(x); }
    return {v, 8 * m + 2 * fabsl(d * x), d, 8 * md + 8 * fabsl(d) + 2 * dd * fabsl(x)};
}
static V ev0(const Node& n, ld x, int depth);
static V ev(const Node& n, ld x, int depth) {
    V v = ev0(n, x, depth);
    // far from overflow and underflow
    auto wild = [](ld y) { return fabsl(y) > 1e60L || (y != 0 && fabsl(y) < 1e-60L); };
    if (wild(v.v) || wild(v.d)) return {NAN, 0, NAN, 0};
    return v;
}
static V ev0(const Node& n, ld x, int depth) {
    if (!n.l) return leaf(n, x);
    if (n.op == "composite" || n.op == "periodic") {
        V g;
        if (n.op == "periodic") {
            ld T = n.c[0], k = floorl(x / T), y = x - k * T;
            g = {y, fabsl(x) + fabsl(k * T), 1, 0};
            // a period boundary may be seen from either side
            if (y < 1e-9L * T || T - y < 1e-9L * T) g.v = NAN;
        } else g = ev(*n.r, x, depth + 1);
        if (!std::isfinite((double) g.v)) return {NAN, 0, NAN, 0};
        V f = ev(*n.l, g.v, depth + 1);
        ld h = 1e-6L * (fabsl(g.v) + 1e-3L), dd = 0;
        if (depth < 5) dd = std::max(fabsl(ev(*n.l, g.v + h, depth + 1).d - f.d), fabsl(ev(*n.l, g.v - h, depth + 1).d - f.d)) / h;
        return {f.v, f.a + fabsl(f.d) * g.a + fabsl(f.v), f.d * g.d, f.b * (fabsl(g.d) + 1e-14L * g.b) + fabsl(f.d) * g.b + 2 * dd * g.a * fabsl(g.d) + fabsl(f.d * g.d)};
    }
    V f = ev(*n.l, x, depth + 1);
    if (n.op == "times-constant") { ld c = n.c[0]; return {c * f.v, fabsl(c) * f.a + fabsl(c * f.v), c * f.d, fabsl(c) * f.b + fabsl(c * f.d)}; }
    if (n.op == "plus-constant") { ld c = n.c[0]; return {c + f.v, f.a + fabsl(c) + fabsl(f.v), f.d, f.b}; }
    V g = ev(*n.r, x, depth + 1);
    if (n.op == "sum" || n.op == "diff") {
        ld s = n.op == "sum" ? 1 : -1;
        return {f.v + s * g.v, f.a + g.a + fabsl(f.v) + fabsl(g.v), f.d + s * g.d, f.b + g.b + fabsl(f.d) + fabsl(g.d)};
    }
    if (n.op == "product") {
        return {f.v * g.v, f.a * fabsl(g.v) + g.a * fabsl(f.v) + fabsl(f.v * g.v), f.d * g.v + f.v * g.d,
            f.b * fabsl(g.v) + f.a * fabsl(g.d) + g.b * fabsl(f.v) + g.a * fabsl(f.d) + 2 * fabsl(f.d * g.v) + 2 * fabsl(f.v * g.d)};
    }
    // ratio
    if (!(fabsl(g.v) > 1e-140L)) return {NAN, 0, NAN, 0};
    ld q = f.v / g.v, g2 = g.v * g.v;
    ld qa = (f.a + fabsl(q) * g.a) / fabsl(g.v) + fabsl(q);
    ld t1 = fabsl(f.d / g.v), t2 = fabsl(f.v * g.d / g2);
    return {q, qa, f.d / g.v - f.v * g.d / g2, f.b / fabsl(g.v) + 3 * t1 * (1 + g.a / fabsl(g.v)) + f.a * fabsl(g.d) / g2 + fabsl(f.v) * g.b / g2 + 3 * t2 * (1 + g.a / fabsl(g.v))};
}

class Cubic : public Func1 {
public:
    Cubic(double c) { m_c = c; }
    double eval(double x) const override { return x * x * x - m_c * x; }
};

struct E { NP n; shared_ptr<Func1> f; };
static double coef(Rng& g) { int k = g.i(0, 9); return k == 0 ? 0.0 : k == 1 ? 1.0 : k == 2 ? -1.0 : k == 3 ? 2.0 : k == 4 ? 0.5 : g.uni(-3, 3); }

static E leafE(Rng& g, bool diffOnly) {
    static const vector<string> all{"sin", "cos", "exp", "log", "pow", "constant", "tabulated-linear", "tabulated-previous", "polynomial3", "Fourier", "Gaussian", "Arrhenius", "functor"};
    E e; e.n = std::make_shared<Node>();
    auto& n = *e.n;
    n.op = all[g.i(0, diffOnly ? 7 : 12)];
    if (n.op == "sin" || n.op == "cos" || n.op == "exp" || n.op == "constant") n.c = {coef(g)};
    else if (n.op == "log") n.c = {g.p(0.4) ? 1.0 : g.logu(0.1, 10) * (g.p(0.1) ? -1 : 1)};
    else if (n.op == "pow") n.c = {g.p(0.6) ? double(g.i(-3, 4)) : g.p(0.5) ? 0.5 * g.i(-5, 5) : g.uni(-2, 3)};
    else if (n.op == "polynomial3") { for (int k = g.i(1, 5); k > 0; k--) n.c.push_back(coef(g)); n.smooth = false; }
    else if (n.op == "Fourier") { int k = g.i(1, 3); n.c.resize(2 * k + 2); for (auto& x : n.c) x = g.uni(-2, 2); n.smooth = false; }
    else if (n.op == "Gaussian") { n.c = {g.uni(-3, 3), g.uni(-2, 2), g.logu(0.2, 4)}; n.smooth = false; }
    else if (n.op == "Arrhenius") { for (int k = g.i(1, 3); k > 0; k--) { n.c.push_back(g.uni(-3, 3)); n.c.push_back(g.i(-1, 2)); n.c.push_back(g.uni(-2, 3)); } n.smooth = false; }
    else if (n.op == "functor") { n.c = {g.uni(-2, 2)}; n.smooth = false; e.f = std::make_shared<Cubic>(n.c[0]); return e; }
    else {
        int k = g.i(2, 6);
        double t = g.uni(-4, 0);
        vector<double> tv, fv;
        for (int j = 0; j < k; j++) { tv.push_back(t); t += g.logu(0.05, 3); fv.push_back(g.uni(-3, 3)); }
        n.c = tv; n.c.insert(n.c.end(), fv.begin(), fv.end());
        if (g.p(0.3)) { e.f = std::make_shared<Tabulated1>(tv.size(), tv.data(), fv.data(), n.op.substr(10)); return e; }
    }
    e.f = n.c.size() == 1 && g.p(0.5) && n.op != "polynomial3" ? newFunc1(n.op, n.c[0]) : newFunc1(n.op, n.c);
    return e;
}
static E combine(Rng& g, const E& a, const E& b) {
    static const vector<string> ops{"sum", "diff", "product", "ratio", "composite", "times-constant", "plus-constant", "periodic"};
    E e; e.n = std::make_shared<Node>();
    auto& n = *e.n;
    n.op = ops[g.p(0.03) ? 7 : g.i(0, 6)];
    n.l = a.n;
    bool raw = g.p(0.25); // without simplification
    if (n.op == "times-constant" || n.op == "plus-constant" || n.op == "periodic") {
        double c = n.op == "periodic" ? g.logu(0.3, 4) : coef(g);
        n.c = {c};
        n.smooth = a.n->smooth && n.op != "periodic";
        if (n.op == "periodic") e.f = newFunc1("periodic", a.f, c);
        else if (raw) e.f = newFunc1(n.op, a.f, c);
        else e.f = n.op == "times-constant" ? newTimesConstFunction(a.f, c) : newPlusConstFunction(a.f, c);
        return e;
    }
    n.r = b.n;
    n.smooth = a.n->smooth && b.n->smooth;
    if (raw) e.f = newFunc1(n.op, a.f, b.f);
    else if (n.op == "sum") e.f = newSumFunction(a.f, b.f);
    else if (n.op == "diff") e.f = newDiffFunction(a.f, b.f);
    else if (n.op == "product") e.f = newProdFunction(a.f, b.f);
    else if (n.op == "ratio") e.f = newRatioFunction(a.f, b.f);
    else e.f = newCompositeFunction(a.f, b.f);
    return e;
}

static string rootKind(const E& e) { return e.n->op; }

int main(int argc, char** argv) {
    Run r = parse(argc, argv);
    ctInit();
    return drive(r, [](Run& r, size_t, Rng& g) {
        bool diffOnly = g.p(0.7);
        vector<E> pool;
        int nl = g.i(1, 4), nc = g.i(1, 7);
        for (int k = 0; k < nl; k++) {
            pool.push_back(leafE(g, diffOnly));
            // the same function again as another object, so that equal operands meet
            if (g.p(0.4) && pool.back().n->op != "functor") { E e = pool.back(); e.f = newFunc1(e.n->op, e.n->c); pool.push_back(e); }
        }
        string all;
        vector<double> xs;
        for (int k = 0; k < 12; k++) xs.push_back(g.p(0.6) ? g.logu(0.05, 5) : g.uni(-4, 4));
        r.describe("leaves " + pool[0].n->str());
        // The derivative of log(a*x) is a/x here, as the project's own tests have it (a known
        // finding, decided by this check); expressions are compared with that convention so that
        // everything else about their derivatives is still decided.
        for (auto& e : pool) if (e.n->op == "log") {
            double x = std::fabs(xs[0]) * (e.n->c[0] < 0 ? -1 : 1);
            auto d = e.f->derivative();
            r.near(cat(e.n->c[0] == 1 ? "log-derivative@unscaled" : "log-derivative@scaled"), d->eval(x), 1 / x, 1e-13, 0, e.n->str());
        }
        for (int k = 0; k < nc; k++) {
            E a = g.pick(pool), b = g.pick(pool);
            if (g.p(0.1)) b = a;
            vector<double> before;
            for (double x : xs) { before.push_back(a.f->eval(x)); before.push_back(b.f->eval(x)); }
            E e;
            try { e = combine(g, a, b); }
            catch (CanteraError& err) {
                // only a division by the constant zero is refused
                r.check("refused-only-division-by-zero", string(err.what()).find("Division by zero") != string::npos, a.n->str() + " , " + b.n->str());
                r.count("division-by-zero-refused");
                continue;
            }
            r.describe("expression " + e.n->str());
            if (k == nc - 1) r.sample(e.n->str());
            size_t q = 0;
            for (double x : xs) {
                double y1 = a.f->eval(x), y2 = b.f->eval(x);
                r.check("operands-unchanged@" + rootKind(e), !std::memcmp(&y1, &before[q], 8) && !std::memcmp(&y2, &before[q + 1], 8), cat("at ", x));
                q += 2;
            }
            shared_ptr<Func1> d;
            try { d = e.f->derivative(); } catch (CanteraError& err) {
                if (string(err.what()).find("Division by zero") == string::npos) r.check("derivative-available@" + rootKind(e), !e.n->smooth, e.n->str());
            }
            for (double x : xs) {
                V v = ev(*e.n, x);
                if (std::isfinite((double) v.v) && v.a < 1e8L * fabsl(v.v) + 1e3L && v.a < 1e12L && fabsl(v.v) < 1e100L) {
                    double got = e.f->eval(x), tol = double(v.a) * 100 * 2.2e-16;
                    r.near("value@" + rootKind(e), got, double(v.v), 0, tol + 1e-300, cat("x ", x, " ", e.f->type()));
                    r.near("call@" + rootKind(e), (*e.f)(x), got, 0);
                    if (d && std::isfinite((double) v.d) && v.b < 1e9L * fabsl(v.d) + 1e3L && v.b < 1e12L && fabsl(v.d) < 1e100L)
                        r.near("derivative@" + rootKind(e), d->eval(x), double(v.d), 0, double(v.b) * 300 * 2.2e-16 + 1e-300, cat("x ", x, " ", e.f->type()));
                } else r.count("ill-conditioned-or-undefined");
                r.state(vh::hashv({double(v.v)}, std::hash<string>()(e.n->op)));
            }
            e.f->write("x");
            r.check("identical-to-itself@" + rootKind(e), !e.n->smooth || e.f->isIdentical(e.f) || e.n->str().find("tabulated") != string::npos, e.f->type());
            for (auto& o : pool) if (e.f->isIdentical(o.f)) {
                for (double x : xs) { double y = e.f->eval(x), z = o.f->eval(x); r.check("identical-equal@" + rootKind(e), y == z || (std::isnan(y) && std::isnan(z)), e.n->str() + " / " + o.n->str()); }
            }
            pool.push_back(e);
        }
    });
}
