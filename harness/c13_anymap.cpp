// C13: generic data maps survive YAML output and input unchanged.
//
// Random trees of values (the reference) are turned into AnyMaps through the API and
// into YAML text written here. What is read back from the text, from the map's own
// output (block, flow, several generations) and from files is compared with the tree.
#include "ct.h"
#include <filesystem>
#include <fstream>
using namespace vh;

struct V {
    enum T { Null, Bool, Int, Dbl, Str, Map, List } t = Null;
    bool b = false; long i = 0; double d = 0; string s;
    vector<std::pair<string, V>> m;
    vector<V> l;
};

static const vector<string> ODD{"", " ", "  x ", "1", "-1", "+3", "1.5", "1e5", "-2.E-3", ".5", "5.", ".", "+", "-", "+.", "e5", "1e", "1e+", "0x10", "0o7", "1_000", "1:30", "inf", "nan", ".inf", "-.inf", ".nan", ".NaN", "+.Inf",
    "true", "false", "True", "False", "TRUE", "yes", "no", "on", "off", "y", "n", "~", "null", "Null", "NULL", "none", "a: b", "a:b", "- a", "-", "?", ": ", ":", "# c", "a #b", "*x", "&x", "!x", "!", "%x", "@x", "`x", "{a", "a}", "[a", "a]", "a,b", ",",
    "'", "\"", "it's", "say \"hi\"", "\\", "\\n", "a\\", "---", "...", "--- a", "<<", "=", "|", ">", "a\nb", "a\nb\n", "\na", "a\n", "\n", "\n\n", "a\n\nb\n", "a\n b\n", " a\nb\n", "a\nb\n\n", "a \nb\n", "a\tb", "\ta", "a\t", "a\rb", "a\r\nb", "1\n2", "1\n", "true\n", "#a\nb\n", "- a\n- b\n", "a: 1\nb: 2\n",
    "\xc3\xa9t\xc3\xa9", "\xe6\xb0\xb4", "\xf0\x9f\x94\xa5", "\xc3\xa9\nb\n", "\x01", "a\x7f", "a\x1b" "b", "\xc2\x85", "\xe2\x80\xa8", "\xef\xbb\xbf", "12 kg", "H2O", "CH2(S)", "NO", "N", "Y", "O2 + M", "__a", "a__", "units", "items", "0", "-0", "00", "1.0", "1d5", "1 2", " 1", "1 ", "9223372036854775808", "1e999"};
static string rstr(Rng& g) {
    if (g.p(0.5)) return g.pick(ODD);
    if (g.p(0.05)) { string s; for (int k = 0; k < 300; k++) s += g.pick(ODD).substr(0, 6) + (g.p(0.7) ? " " : ""); return s; }
    if (g.p(0.3)) { string s; int n = int(g.i(1, 12)); for (int k = 0; k < n; k++) s += char(g.i(32, 126)); return s; }
    if (g.p(0.2)) { string s; int n = int(g.i(2, 4)); for (int k = 0; k < n; k++) s += g.pick(ODD); return s; }
    string s;
    int n = int(g.i(1, 12));
    for (int k = 0; k < n; k++) s += char('a' + g.i(0, 25));
    return s;
}
static string rkey(Rng& g) {
    while (true) {
        string k = g.p(0.7) ? cat("k", char('a' + g.i(0, 25)), g.i(0, 99)) : rstr(g);
        // reserved: metadata, unit directives, the name given to top-level lists
        if (k == "units" || k == "items" || (k.size() >= 2 && k.substr(0, 2) == "__") || k.size() > 900) continue;
        return k;
    }
}
static double rdbl(Rng& g) {
    switch (g.i(0, 9)) {
    case 0: return g.pick({0.0, 1.0, -1.0, 10.0, 1e4, 9999.999999999999, 99999.99999999999, 0.01, 0.00999999999999999, 1e-300, 1e300, 1.7976931348623157e308, 2.2250738585072014e-308, 0.1, 1.0 / 3, 2.0 / 3, 1e22, 1e15, 1e16, 999.9999999999999});
    case 1: return std::numeric_limits<double>::infinity() * (g.p(0.5) ? 1 : -1);
    case 2: return NAN;
    case 3: return double(g.i(-100000, 100000));
    case 4: return double(g.i(-100000, 100000)) / 1000;
    default: return g.logu(1e-200, 1e200) * (g.p(0.3) ? -1 : 1);
    case 6: return g.logu(1e-4, 1e6) * (g.p(0.3) ? -1 : 1);
    }
}
static V scalar(Rng& g, int kind) {
    V v;
    switch (kind) {
    case 0: v.t = V::Bool; v.b = g.p(0.5); break;
    case 1: v.t = V::Int; v.i = g.p(0.1) ? g.pick({std::numeric_limits<long>::max(), std::numeric_limits<long>::min(), 0L, -1L, 2147483648L}) : g.i(-1000000, 1000000); break;
    case 2: v.t = V::Dbl; v.d = rdbl(g); break;
    default: v.t = V::Str; v.s = rstr(g);
    }
    return v;
}
static V tree(Rng& g, int depth);
static V rmap(Rng& g, int depth) {
    V v;
    v.t = V::Map;
    int n = int(g.i(0, 6));
    std::set<string> seen;
    for (int k = 0; k < n; k++) {
        string key = rkey(g);
        if (seen.insert(key).second) v.m.push_back({key, tree(g, depth - 1)});
    }
    return v;
}
static V rlist(Rng& g, int depth) {
    V v;
    v.t = V::List;
    int n = g.p(0.1) ? int(g.i(20, 60)) : int(g.i(0, 6));
    int how = int(g.i(0, 8));
    for (int k = 0; k < n; k++) {
        if (how < 4) v.l.push_back(scalar(g, how));
        else if (how == 4) v.l.push_back(scalar(g, int(g.i(0, 3))));
        else if (depth <= 0) v.l.push_back(scalar(g, 1));
        else if (how == 5) v.l.push_back(rmap(g, depth - 1));
        else if (how == 6 || how == 7) {
            // rows of one type, of equal or different length
            V row;
            row.t = V::List;
            int len = how == 6 ? 3 : int(g.i(0, 4));
            static thread_local int kind = 0;
            if (k == 0) kind = int(g.i(0, 3));
            for (int q = 0; q < len; q++) row.l.push_back(scalar(g, kind));
            v.l.push_back(row);
        } else v.l.push_back(tree(g, depth - 1));
    }
    return v;
}
static V tree(Rng& g, int depth) {
    if (depth <= 0 || g.p(0.5)) return scalar(g, int(g.i(0, 3)));
    return g.p(0.5) ? rmap(g, depth) : rlist(g, depth);
}

// kinds held by a list
static int kinds(const V& v) { int k = 0; for (auto& e : v.l) k |= 1 << e.t; return k; }
static AnyMap toMap(Rng& g, const V& v);
static AnyValue toAny(Rng& g, const V& v);
template <class T> static vector<T> typed(const V& v) {
    vector<T> o;
    for (auto& e : v.l) {
        if constexpr (std::is_same_v<T, bool>) o.push_back(e.b);
        else if constexpr (std::is_same_v<T, long int>) o.push_back(e.i);
        else if constexpr (std::is_same_v<T, double>) o.push_back(e.t == V::Int ? double(e.i) : e.d);
        else o.push_back(e.s);
    }
    return o;
}
template <class T> static vector<vector<T>> typed2(const V& v) { vector<vector<T>> o; for (auto& r : v.l) o.push_back(typed<T>(r)); return o; }
static AnyValue toAny(Rng& g, const V& v) {
    AnyValue a;
    switch (v.t) {
    case V::Null: break;
    case V::Bool: a = v.b; break;
    case V::Int: a = v.i; break;
    case V::Dbl: a = v.d; break;
    case V::Str: a = v.s; break;
    case V::Map: a = toMap(g, v); break;
    case V::List: {
        int k = kinds(v);
        bool gen = g.p(0.2);
        if (!gen && k == 1 << V::Bool) a = typed<bool>(v);
        else if (!gen && k == 1 << V::Int) a = typed<long int>(v);
        else if (!gen && (k == 1 << V::Dbl || (v.l.empty() && g.p(0.5)))) a = typed<double>(v);
        else if (!gen && (k == 1 << V::Str || (v.l.empty() && g.p(0.5)))) a = typed<string>(v);
        else if (!gen && k == 1 << V::Map) { vector<AnyMap> o; for (auto& e : v.l) o.push_back(toMap(g, e)); a = o; }
        else {
            int sub = 0;
            bool rows = k == 1 << V::List;
            if (rows) for (auto& e : v.l) sub |= kinds(e);
            if (!gen && rows && sub == 1 << V::Bool) a = typed2<bool>(v);
            else if (!gen && rows && sub == 1 << V::Int) a = typed2<long int>(v);
            else if (!gen && rows && sub == 1 << V::Dbl) a = typed2<double>(v);
            else if (!gen && rows && sub == 1 << V::Str) a = typed2<string>(v);
            else { vector<AnyValue> o; for (auto& e : v.l) o.push_back(toAny(g, e)); a = o; }
        }
    }
    }
    return a;
}
static AnyMap toMap(Rng& g, const V& v) {
    AnyMap m;
    for (auto& [k, e] : v.m) m[k] = toAny(g, e);
    if (g.p(0.3)) m.setFlowStyle();
    return m;
}

// ---- own YAML text
static string quoted(const string& s) {
    string o = "\"";
    for (size_t i = 0; i < s.size(); i++) {
        unsigned char c = s[i];
        if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
        else if (c == '\n') o += "\\n";
        else if (c == '\t') o += "\\t";
        else if (c == '\r') o += "\\r";
        else if (c < 0x20 || c == 0x7f) { char b[8]; snprintf(b, 8, "\\x%02x", c); o += b; }
        else o += char(c);
    }
    return o + "\"";
}
static string dtext(double x) {
    if (std::isnan(x)) return ".nan";
    if (std::isinf(x)) return x > 0 ? ".inf" : "-.inf";
    char b[40];
    snprintf(b, 40, "%.17g", x);
    string s = b;
    if (s.find_first_of(".e") == string::npos) s += ".0";
    return s;
}
static bool plainSafe(const string& s) {
    if (s.empty() || !isalpha(s[0])) return false;
    for (char c : s) if (!isalnum(c)) return false;
    static const std::set<string> no{"true", "false", "True", "False", "null", "Null", "NULL"};
    return !no.count(s);
}
static string flow(Rng& g, const V& v) {
    switch (v.t) {
    case V::Null: return g.pick({string("~"), string("null")});
    case V::Bool: return v.b ? g.pick({string("true"), string("True")}) : g.pick({string("false"), string("False")});
    case V::Int: return cat(v.i);
    case V::Dbl: return dtext(v.d);
    case V::Str: {
        if (plainSafe(v.s) && g.p(0.7)) return v.s;
        bool simple = true;
        for (char c : v.s) simple &= c >= 32 && c < 127;
        if (simple && g.p(0.4)) {
            string o = "'";
            for (char c : v.s) { o += c; if (c == '\'') o += c; }
            return o + "'";
        }
        return quoted(v.s);
    }
    case V::Map: {
        string o = "{";
        for (auto& [k, e] : v.m) o += (o.size() > 1 ? ", " : "") + quoted(k) + ": " + flow(g, e);
        return o + "}";
    }
    default: {
        string o = "[";
        for (auto& e : v.l) o += (o.size() > 1 ? ", " : "") + flow(g, e);
        return o + "]";
    }
    }
}
static string block(Rng& g, const V& v, int in) {
    string pad(in, ' ');
    if (v.t == V::Map && !v.m.empty() && g.p(0.8)) {
        string o;
        for (auto& [k, e] : v.m) {
            bool nest = (e.t == V::Map && !e.m.empty()) || (e.t == V::List && !e.l.empty());
            string b = nest ? block(g, e, in + 2) : "";
            o += pad + (plainSafe(k) ? k : quoted(k)) + ":" + (b.empty() ? " " + flow(g, e) + "\n" : "\n" + b);
        }
        return o;
    }
    if (v.t == V::List && !v.l.empty() && g.p(0.6)) {
        string o;
        for (auto& e : v.l) o += pad + "- " + flow(g, e) + "\n";
        return o;
    }
    return "";
}

// ---- comparison
static size_t sizeOf(const AnyValue& a) {
    if (a.is<vector<AnyValue>>()) return a.as<vector<AnyValue>>().size();
    if (a.is<vector<AnyMap>>()) return a.as<vector<AnyMap>>().size();
    if (a.isVector<vector<double>>()) return a.as<vector<vector<double>>>().size();
    if (a.isVector<vector<long int>>()) return a.as<vector<vector<long int>>>().size();
    if (a.isVector<vector<string>>()) return a.as<vector<vector<string>>>().size();
    if (a.isVector<vector<bool>>()) return a.as<vector<vector<bool>>>().size();
    return a.vectorSize();
}
static AnyValue item(const AnyValue& a, size_t i) {
    AnyValue o;
    if (a.is<vector<AnyValue>>()) return a.as<vector<AnyValue>>()[i];
    if (a.is<vector<AnyMap>>()) o = a.as<vector<AnyMap>>()[i];
    else if (a.isVector<vector<double>>()) o = a.as<vector<vector<double>>>()[i];
    else if (a.isVector<vector<long int>>()) o = a.as<vector<vector<long int>>>()[i];
    else if (a.isVector<vector<string>>()) o = a.as<vector<vector<string>>>()[i];
    else if (a.isVector<vector<bool>>()) o = a.as<vector<vector<bool>>>()[i];
    else if (a.isVector<double>()) o = a.as<vector<double>>()[i];
    else if (a.isVector<long int>()) o = a.as<vector<long int>>()[i];
    else if (a.isVector<string>()) o = a.as<vector<string>>()[i];
    else if (a.isVector<bool>()) o = bool(a.as<vector<bool>>()[i]);
    return o;
}
static bool dsame(double a, double b, double tol) {
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    return a == b || std::fabs(a - b) <= tol * std::fabs(b);
}
// number: the element stands in a list with numbers of both kinds
static string differ(const AnyValue& a, const V& v, double tol, bool number = false) {
    switch (v.t) {
    case V::Null: return a.empty() ? "" : "not empty: " + a.type_str();
    case V::Bool: return a.is<bool>() && a.asBool() == v.b ? "" : "bool became " + a.type_str();
    case V::Int:
        if (number && a.is<double>()) return dsame(a.asDouble(), double(v.i), 1e-15) ? "" : "number changed";
        if (!a.is<long int>()) return "integer became " + a.type_str();
        return a.asInt() == v.i ? "" : cat("integer ", v.i, " became ", a.asInt());
    case V::Dbl:
        if (!a.is<double>()) return cat("number ", v.d, " became ", a.type_str());
        return dsame(a.asDouble(), v.d, tol) ? "" : cat("number ", v.d, " became ", a.asDouble());
    case V::Str:
        if (!a.is<string>()) return "string " + jstr(v.s) + " became " + a.type_str();
        return a.asString() == v.s ? "" : "string " + jstr(v.s) + " became " + jstr(a.asString());
    case V::Map: {
        if (!a.is<AnyMap>()) return "map became " + a.type_str();
        auto& m = a.as<AnyMap>();
        std::set<string> keys, got;
        for (auto& [k, e] : v.m) keys.insert(k);
        for (auto& [k, e] : m) got.insert(k);
        for (auto& k : keys) if (!got.count(k)) return "key " + jstr(k) + " lost";
        for (auto& k : got) if (!keys.count(k)) return "key " + jstr(k) + " appeared";
        for (auto& [k, e] : v.m) { string d = differ(m.at(k), e, tol); if (!d.empty()) return jstr(k) + ": " + d; }
        return "";
    }
    default: {
        if (v.l.empty()) return sizeOf(a) == 0 ? "" : "empty list became " + a.type_str();
        if (sizeOf(a) != v.l.size()) return cat("list of ", v.l.size(), " became ", a.type_str(), " of ", long(sizeOf(a)));
        // numbers of both kinds may be stored as floating point, also in all rows of a table
        bool num = number || kinds(v) == ((1 << V::Int) | (1 << V::Dbl));
        if (kinds(v) == 1 << V::List) { int sub = 0; for (auto& e : v.l) sub |= kinds(e); num |= sub == ((1 << V::Int) | (1 << V::Dbl)); }
        for (size_t i = 0; i < v.l.size(); i++) { string d = differ(item(a, i), v.l[i], tol, num); if (!d.empty()) return cat("[", i, "] ", d); }
        return "";
    }
    }
}
// typed access to scalars: the value, a documented conversion, or an error
template <class T> static int get(const AnyValue& a, T* x) { AnyValue c = a; try { *x = c.as<T>(); return 1; } catch (CanteraError&) { return 0; } }
static void access(Run& r, const AnyValue& a, const V& v) {
    double d; long int i; bool b; string s;
    int hd = get(a, &d), hi = get(a, &i), hb = get(a, &b), hs = get(a, &s);
    r.check("access-bool", v.t == V::Bool ? hb && b == v.b : !hb);
    r.check("access-int", v.t == V::Int ? hi && i == v.i : !hi);
    r.check("access-double", v.t == V::Dbl ? hd && dsame(d, v.d, 0) : v.t == V::Int ? hd && d == double(v.i) : !hd);
    r.check("access-string", v.t == V::Str ? hs && s == v.s : v.t == V::Int ? hs && s == cat(v.i) : v.t == V::Dbl ? hs && (!std::isfinite(v.d) || strtod(s.c_str(), nullptr) == v.d) : !hs);
    vector<double> vd; vector<string> vs; vector<long int> vi; AnyMap am;
    bool isl = v.t == V::List;
    if (!isl) { r.check("access-scalar-as-list", !get(a, &vd) && !get(a, &vs) && !get(a, &vi)); }
    if (v.t != V::Map) r.check("access-not-a-map", !get(a, &am));
    if (isl && !v.l.empty()) {
        int k = kinds(v);
        if (get(a, &vi)) { bool ok = k == 1 << V::Int && vi.size() == v.l.size(); if (ok) for (size_t q = 0; q < vi.size(); q++) ok &= vi[q] == v.l[q].i; r.check("access-int-list", ok); }
        if (get(a, &vs)) { bool ok = k == 1 << V::Str && vs.size() == v.l.size(); if (ok) for (size_t q = 0; q < vs.size(); q++) ok &= vs[q] == v.l[q].s; r.check("access-string-list", ok); }
        AnyValue c = a;
        bool got = true;
        vector<double> w;
        try { w = c.asVector<double>(); } catch (CanteraError&) { got = false; }
        if (got) {
            bool ok = !(k & ~((1 << V::Int) | (1 << V::Dbl))) && w.size() == v.l.size();
            if (ok) for (size_t q = 0; q < w.size(); q++) ok &= dsame(w[q], v.l[q].t == V::Int ? double(v.l[q].i) : v.l[q].d, 0);
            r.check("access-double-list", ok);
        } else r.check("access-double-list", !(k == 1 << V::Int || k == 1 << V::Dbl), "refused");
        c = a;
        bool g2 = true;
        vector<AnyValue> u;
        try { u = c.asVector<AnyValue>(); } catch (CanteraError&) { g2 = false; }
        if (g2) { bool ok = u.size() == v.l.size(); for (size_t q = 0; ok && q < u.size(); q++) ok &= differ(u[q], v.l[q], 0, true).empty(); r.check("access-any-list", ok); }
    }
}
static void walk(Run& r, const AnyValue& a, const V& v) {
    if (r.evaluations % 3 == 0 || v.t == V::List) access(r, a, v);
    if (v.t == V::Map) for (auto& [k, e] : v.m) walk(r, a.as<AnyMap>().at(k), e);
}
static void same(Run& r, const string& key, const AnyMap& m, const V& v, double tol, const string& text) {
    AnyValue a;
    a = m;
    string d = differ(a, v, tol);
    r.check(key, d.empty(), d + " in\n" + text.substr(0, 1500));
}

int main(int argc, char** argv) {
    Run r = parse(argc, argv);
    ctInit();
    string dir = cat("/tmp/c13_", getpid());
    std::filesystem::create_directory(dir);
    int rc = drive(r, [&](Run& r, size_t, Rng& g) {
        // numbers are written with 16 digits, of which trailing 00x or 99x are rounded
        const double W = 6e-15;
        V v = rmap(g, int(g.i(1, 5)));
        string text = block(g, v, 0);
        if (text.empty()) text = flow(g, v) + "\n";
        r.describe("text\n" + text.substr(0, 1500));
        r.state(text);
        // reading
        AnyMap read = AnyMap::fromYamlString(text);
        same(r, "read", read, v, 0, text);
        { AnyValue a; a = read; walk(r, a, v); }
        if (g.p(0.3)) { string f = flow(g, v); same(r, "read-flow", AnyMap::fromYamlString(f), v, 0, f); }
        // built through the API
        AnyMap built = toMap(g, v);
        same(r, "built", built, v, 0, text);
        { AnyValue a; a = built; walk(r, a, v); }
        // written
        for (AnyMap* m : {&read, &built}) {
            string key = m == &read ? "" : "-built";
            string out = m->toYamlString();
            AnyMap again = AnyMap::fromYamlString(out);
            same(r, "write" + key, again, v, W, out);
            string out2 = again.toYamlString();
            same(r, "write-twice" + key, AnyMap::fromYamlString(out2), v, 2 * W, out2);
            // writing does not change the map
            same(r, "unchanged-by-writing" + key, *m, v, 0, text);
        }
        // fewer digits on request
        if (g.p(0.3)) {
            long p = g.i(0, 15);
            AnyMap m = built;
            m.setMetadata("precision", AnyValue(p));
            AnyMap holder;
            string out = m.toYamlString();
            same(r, "write-precision", AnyMap::fromYamlString(out), v, std::max(6 * std::pow(10.0, -double(p)), W), cat("precision ", p, "\n", out));
        }
        // copies are independent
        AnyMap copy = built;
        r.check("copy-equal", copy.keys_str() == built.keys_str());
        for (auto& [k, e] : v.m) {
            if (g.p(0.5)) copy[k] = "changed"; else copy.erase(k);
        }
        copy["added"] = 1;
        same(r, "copy-independent", built, v, 0, text);
        bool nan = text.find(".nan") != npos || text.find(".inf") != npos;
        if (!nan) { AnyMap c2 = built; r.check("equality", c2 == built && !(c2 != built)); if (!v.m.empty()) { c2[v.m[0].first] = "another value"; r.check("inequality", !(c2 == built)); } }
        // merged maps
        {
            AnyMap base;
            vector<string> kept;
            for (auto& [k, e] : v.m) if (g.p(0.4)) { base[k] = 4711L; kept.push_back(k); }
            bool keep = g.p(0.5);
            base.update(built, keep);
            for (auto& [k, e] : v.m) {
                bool old = std::count(kept.begin(), kept.end(), k);
                string d = keep && old ? (base[k] == 4711L ? "" : "overwritten") : differ(base[k], e, 0);
                r.check("update", d.empty(), k + " " + d);
            }
        }
        // files, and the cache of files
        if (g.p(0.1)) {
            string fn = cat(dir, "/f", r.icase, ".yaml");
            std::ofstream(fn) << text;
            AnyMap f1 = AnyMap::fromYamlFile(fn);
            same(r, "file", f1, v, 0, text);
            for (auto& [k, e] : v.m) { if (e.t == V::Map) f1[k].as<AnyMap>()["added"] = 1; else if (e.t == V::List && f1[k].is<vector<double>>() && !e.l.empty()) f1[k].asVector<double>()[0] = 42; else f1[k] = "changed"; }
            same(r, "file-again", AnyMap::fromYamlFile(fn), v, 0, text);
            V w = rmap(g, 3);
            string t2 = flow(g, w) + "\n";
            auto before = std::filesystem::last_write_time(fn);
            std::ofstream(fn) << t2;
            std::filesystem::last_write_time(fn, before + std::chrono::seconds(g.i(1, 100)));
            same(r, "file-rewritten", AnyMap::fromYamlFile(fn), w, 0, t2);
            std::filesystem::remove(fn);
        }
        r.sample(text.substr(0, 400));
    });
    std::filesystem::remove_all(dir);
    return rc;
}
