// common/settings.cc: option/worldspawn-key parsing and source precedence against a reference model (mode ops).
#include "vph.hh"
#include <algorithm>
#include <array>
#include <memory>
#include <set>
#include <common/settings.hh>

using namespace settings;
using vp::rng;
using src = settings::source;
enum class col
{
    RED = 1,
    GREEN = 2,
    BLUE = -4
};
struct calls_t
{
    std::vector<int> seen;
};
struct S : public setting_container
{
    calls_t calls;
    setting_bool b0{this, {"alpha", "a"}, false};
    setting_bool b1{this, "beta", true};
    setting_bool nob{this, "nogamma", false};
    setting_bool nob2{this, "nodelta", true};
    setting_invertible_bool ib{this, {"omega", "om"}, true};
    setting_redirect rd{this, {"hush", "notalk"}, {&nob, &nob2, &b1}};
    setting_int32 i0{this, "count", 3};
    setting_int32 i1{this, {"level", "lvl"}, 4, -2, 9};
    setting_int32 i2{this, "extra", 1, 1, 8, can_omit_argument_tag(), 4};
    setting_scalar s0{this, "gain", 1.5f};
    setting_scalar s1{this, {"ratio", "rt"}, 0.25f, 0.0f, 1.0f};
    setting_scalar s2{this, "dist", 7.0f, 0.0f, 100.0f, can_omit_argument_tag(), 42.0f};
    setting_enum<col> e0{this, {"col", "colour"}, col::GREEN, {{"red", col::RED}, {"Green", col::GREEN}, {"bLUE", col::BLUE}}};
    setting_string t0{this, "text", "dflt"};
    setting_path p0{this, {"dir", "folder"}, "x/y"};
    setting_set z0{this, {"path", "paths"}};
    setting_vec3 v0{this, "vec", 1, 2, 3};
    setting_mangle m0{this, {"mangle", "sunmangle"}, 0, 0, 0};
    setting_color c0{this, {"tint", "tintcolor"}, 0, 0, 0};
    setting_func f0{this, {"fast", "quickly"}, [this](src s) { calls.seen.push_back((int)s); }};
    setting_validator<setting_int32> w0{[](setting_int32 &s) { return s.value() % 2 == 0; }, this, "even", 2};
};
enum K
{
    BOOL,
    IBOOL,
    REDIR,
    INT,
    SCALAR,
    ENUM,
    STR,
    PATH,
    SET,
    VEC,
    MANGLE,
    COLOR,
    FUNC,
    EVEN
};
struct Mod // reference state of one setting
{
    K kind;
    std::vector<std::string> names;
    double num = 0, lo = 0, hi = 0, omit = 0;
    bool canomit = false;
    std::array<double, 3> v{};
    std::string s;
    std::set<std::string> set;
    int source = 0;
    std::function<setting_base *(S &)> real;
    std::vector<int> redir;
};
static std::vector<Mod> defaults()
{
    std::vector<Mod> m;
    auto add = [&](K k, std::vector<std::string> n, auto S::*p, double num = 0) -> Mod & {
        Mod x;
        x.kind = k, x.names = n, x.num = num;
        x.real = [p](S &s) { return static_cast<setting_base *>(&(s.*p)); };
        m.push_back(x);
        return m.back();
    };
    add(BOOL, {"alpha", "a"}, &S::b0, 0);
    add(BOOL, {"beta"}, &S::b1, 1);
    add(BOOL, {"nogamma"}, &S::nob, 0);
    add(BOOL, {"nodelta"}, &S::nob2, 1);
    add(IBOOL, {"omega", "om", "noomega", "noom"}, &S::ib, 1);
    add(REDIR, {"hush", "notalk"}, &S::rd).redir = {2, 3, 1};
    auto rng_ = [](Mod &x, double lo, double hi) -> Mod & {
        x.lo = lo, x.hi = hi;
        return x;
    };
    auto om = [](Mod &x, double v) { x.canomit = true, x.omit = v; };
    rng_(add(INT, {"count"}, &S::i0, 3), INT32_MIN, INT32_MAX);
    rng_(add(INT, {"level", "lvl"}, &S::i1, 4), -2, 9);
    om(rng_(add(INT, {"extra"}, &S::i2, 1), 1, 8), 4);
    rng_(add(SCALAR, {"gain"}, &S::s0, 1.5), -3.4e38, 3.4e38);
    rng_(add(SCALAR, {"ratio", "rt"}, &S::s1, .25), 0, 1);
    om(rng_(add(SCALAR, {"dist"}, &S::s2, 7), 0, 100), 42);
    add(ENUM, {"col", "colour"}, &S::e0, 2);
    add(STR, {"text"}, &S::t0).s = "dflt";
    add(PATH, {"dir", "folder"}, &S::p0).s = "x/y";
    add(SET, {"path", "paths"}, &S::z0);
    add(VEC, {"vec"}, &S::v0).v = {1, 2, 3};
    add(MANGLE, {"mangle", "sunmangle"}, &S::m0);
    add(COLOR, {"tint", "tintcolor"}, &S::c0);
    add(FUNC, {"fast", "quickly"}, &S::f0);
    rng_(add(EVEN, {"even"}, &S::w0, 2), INT32_MIN, INT32_MAX);
    return m;
}
// one raw argument string and what it means
struct Tok
{
    std::string t;
    bool num = false;
    double v = 0;
};
static Tok numtok(rng &r, bool integral)
{
    Tok k;
    k.num = true;
    if (integral || r.chance(.4)) {
        int64_t v = r.chance(.6) ? r.range(-3, 12) : r.of<int64_t>({0, 1, -1, 255, -128, 100000, -100000, 2147483647, -2147483647, 16, 99});
        k.t = (v >= 0 && r.chance(.05) ? "+" : "") + std::to_string(v);
        k.v = v;
    } else {
        double v = r.chance(.6) ? r.real(-1.5, 1.5) : r.real(-400, 400);
        char b[40];
        snprintf(b, sizeof b, r.of({"%.3f", "%.6g", "%.4e"}), v);
        k.t = b;
        k.v = strtod(b, 0);
    }
    return k;
}
static Tok wordtok(rng &r, bool cmdline)
{
    Tok k;
    static const std::vector<std::string> w{"red", "RED", "green", "gReEn", "blue", "bLUE", "purple", "maps/e1m1.map", "x", "id1", "a_b", "file", "Zed", "w.pak", "kek", "reD2", "gr", "q2/baseq2"};
    k.t = r.pick(w);
    if (cmdline && r.chance(.1))
        k.t += " with space";
    return k;
}
struct World
{
    rng &r;
    S s;
    std::vector<Mod> m = defaults();
    std::vector<int> calls;
    explicit World(rng &rr) : r(rr) { }

    int find(const std::string &n)
    {
        std::string k = n;
        while (!k.empty() && k[0] == '_')
            k.erase(0, 1);
        for (size_t i = 0; i < m.size(); i++)
            for (auto &x : m[i].names)
                if (x == k)
                    return i;
        return -1;
    }
    // apply option `name` to setting i, reading arguments from `a` at `pos`; false = rejected
    bool wild = false; // an angle too large for single precision
    bool apply(int i, std::string name, const std::vector<Tok> &a, size_t &pos, int from)
    {
        Mod &x = m[i];
        while (!name.empty() && name[0] == '_')
            name.erase(0, 1);
        auto give = [&](auto f) {
            if (from >= x.source) {
                x.source = from;
                f();
            }
        };
        auto have = [&] { return pos < a.size(); };
        switch (x.kind) {
            case BOOL:
            case IBOOL: {
                bool truth = true;
                if (x.kind == IBOOL) // the generated names are "no" + each declared name
                    truth = std::find(x.names.begin(), x.names.end(), name) - x.names.begin() < (ptrdiff_t)x.names.size() / 2;
                bool val = truth;
                if (have() && (a[pos].t == "1" || a[pos].t == "0" || a[pos].t == "-1")) {
                    if (a[pos].t != "1")
                        val = !truth;
                    pos++;
                }
                give([&] { x.num = val; });
                return true;
            }
            case REDIR: {
                size_t start = pos;
                for (int k : x.redir) {
                    pos = start;
                    if (!apply(k, name, a, pos, from))
                        return false;
                }
                return true;
            }
            case INT:
            case SCALAR:
            case EVEN: {
                double v;
                if (have() && a[pos].num)
                    v = a[pos++].v;
                else if (x.canomit)
                    v = x.omit;
                else
                    return false;
                v = std::clamp(v, x.lo, x.hi);
                give([&] { x.num = v; });
                return x.kind != EVEN || ((int)x.num % 2 == 0);
            }
            case ENUM: {
                if (!have())
                    return false;
                std::string l = a[pos].t;
                for (auto &c : l)
                    c = tolower(c);
                bool n = a[pos].num;
                double v = a[pos].v;
                pos++;
                if (l == "red")
                    give([&] { x.num = 1; });
                else if (l == "green")
                    give([&] { x.num = 2; });
                else if (l == "blue")
                    give([&] { x.num = -4; });
                else if (n)
                    give([&] { x.num = v; });
                else
                    return false;
                return true;
            }
            case STR:
            case PATH:
                if (!have())
                    return false;
                give([&] { x.s = a[pos].t; });
                pos++;
                return true;
            case SET:
                if (!have())
                    return false;
                give([&] { x.set.insert(a[pos].t); });
                pos++;
                return true;
            case VEC:
            case COLOR: {
                std::array<double, 3> v;
                for (auto &e : v) {
                    if (!have() || !a[pos].num)
                        return false;
                    e = (float)a[pos++].v;
                }
                if (x.kind == COLOR && v[0] >= 0 && v[0] <= 1 && v[1] >= 0 && v[1] <= 1 && v[2] >= 0 && v[2] <= 1)
                    for (auto &e : v)
                        e *= 255;
                give([&] { x.v = v; });
                return true;
            }
            case MANGLE: {
                double yp[3]{};
                for (auto &e : yp) {
                    if (!have() || !a[pos].num)
                        break;
                    e = a[pos++].v;
                    wild |= fabs(e) > 400;
                }
                // yaw turns from +x towards +y, pitch raises towards +z
                double y = yp[0] * M_PI / 180, p = yp[1] * M_PI / 180;
                give([&] { x.v = {cos(y) * cos(p), sin(y) * cos(p), sin(p)}; });
                return true;
            }
            case FUNC: calls.push_back(from); return true;
        }
        return false;
    }
    // arguments after an option of kind k, mostly fitting
    void args(K k, std::vector<Tok> &a, bool cmdline)
    {
        auto N = [&](int n, bool in) {
            while (n--)
                a.push_back(numtok(r, in));
        };
        if (r.chance(.06)) { // anything
            int n = r.range(0, 3);
            while (n--)
                a.push_back(r.chance(.5) ? numtok(r, true) : wordtok(r, cmdline));
            return;
        }
        switch (k) {
            case BOOL:
            case IBOOL:
            case REDIR:
                if (r.chance(.6)) {
                    Tok t;
                    t.num = true;
                    int v = r.range(-1, 1);
                    t.v = v;
                    t.t = std::to_string(v);
                    a.push_back(t);
                }
                break;
            case INT:
            case EVEN: N(r.chance(.9), true); break;
            case SCALAR: N(r.chance(.9), false); break;
            case ENUM: r.chance(.15) ? N(1, true) : a.push_back(wordtok(r, cmdline)); break;
            case STR:
            case PATH:
            case SET: a.push_back(r.chance(.2) ? numtok(r, false) : wordtok(r, cmdline)); break;
            case VEC:
            case COLOR:
                if (k == COLOR && r.chance(.4)) {
                    for (int i = 0; i < 3; i++) {
                        Tok t;
                        t.num = true;
                        t.t = r.of({"0", "1", "0.5", "0.25", "1.0", "0.125"});
                        t.v = strtod(t.t.c_str(), 0);
                        a.push_back(t);
                    }
                } else
                    N(r.chance(.9) ? 3 : r.range(0, 2), false);
                break;
            case MANGLE:
                for (int i = r.range(1, 3); i > 0; i--) {
                    Tok t;
                    t.num = true;
                    t.t = std::to_string(r.range(-360, 360));
                    t.v = atoi(t.t.c_str());
                    a.push_back(t);
                }
                break;
            case FUNC: break;
        }
    }
    std::string pickname(int &i)
    {
        i = r.range(0, m.size() - 1);
        std::string n = r.pick(m[i].names);
        if (r.chance(.15))
            n = "_" + n;
        if (r.chance(.02))
            n = "_" + n;
        return n;
    }
    static double f(double v) { return (float)v; }
    void verify(const std::string &hist)
    {
        for (auto &x : m) {
            setting_base *b = x.real(s);
            std::string got, want;
            auto near_ = [](double a, double b) { return fabs(a - b) <= 1e-5 + 1e-6 * fabs(b); };
            bool ok = true;
            if (x.kind != REDIR && x.kind != FUNC) {
                EXPECT((int)b->get_source() == x.source, "source", "setting {} comes from source {}, expected {}; after {}", x.names[0], (int)b->get_source(), x.source, hist);
                EXPECT(b->is_changed() == (x.source != 0), "changed", "setting {}; after {}", x.names[0], hist);
            }
            switch (x.kind) {
                case BOOL:
                case IBOOL: {
                    bool v = dynamic_cast<setting_bool *>(b)->value();
                    ok = v == (x.num != 0), got = std::to_string(v), want = std::to_string(x.num);
                    break;
                }
                case INT:
                case EVEN: {
                    int v = dynamic_cast<setting_int32 *>(b)->value();
                    ok = v == (int)x.num, got = std::to_string(v), want = std::to_string(x.num);
                    break;
                }
                case SCALAR: {
                    float v = dynamic_cast<setting_scalar *>(b)->value();
                    ok = near_(v, x.num), got = std::to_string(v), want = std::to_string(x.num);
                    break;
                }
                case ENUM: {
                    int v = (int)dynamic_cast<setting_enum<col> *>(b)->value();
                    ok = v == (int)x.num, got = std::to_string(v), want = std::to_string(x.num);
                    break;
                }
                case STR: got = dynamic_cast<setting_string *>(b)->value(), want = x.s, ok = got == want; break;
                case PATH: got = dynamic_cast<setting_path *>(b)->value().generic_string(), want = x.s, ok = got == want; break;
                case SET: {
                    auto &u = dynamic_cast<setting_set *>(b)->values();
                    std::set<std::string> g(u.begin(), u.end());
                    ok = g == x.set;
                    for (auto &e : g)
                        got += e + ",";
                    for (auto &e : x.set)
                        want += e + ",";
                    break;
                }
                case VEC:
                case COLOR:
                case MANGLE: {
                    auto v = dynamic_cast<setting_vec3 *>(b)->value();
                    for (int i = 0; i < 3; i++) {
                        // a mangle is a direction: single precision trigonometry of angles up to 1e5 degrees
                        double tol = x.kind == MANGLE ? (wild ? 4 : 1e-3) : 0;
                        if (!(fabs(v[i] - x.v[i]) <= tol + 1e-5 + 1e-6 * fabs(x.v[i])))
                            ok = false;
                        got += std::to_string(v[i]) + " ", want += std::to_string(x.v[i]) + " ";
                    }
                    break;
                }
                case REDIR:
                case FUNC: break;
            }
            EXPECT(ok, "value", "setting {} is {}, expected {}; after {}", x.names[0], got, want, hist);
        }
        EXPECT(s.calls.seen == calls, "func-calls", "callback ran {} times, expected {}; after {}", s.calls.seen.size(), calls.size(), hist);
    }
};
static void case_ops(rng &r)
{
    World w(r);
    std::string hist;
    int nops = r.range(1, 10);
    for (int o = 0; o < nops; o++) {
        int what = r.range(0, 9);
        if (what < 4) { // a command line
            std::vector<Tok> a;
            std::vector<std::pair<size_t, std::string>> opts;
            int n = r.range(1, 6);
            for (int k = 0; k < n; k++) {
                int i;
                std::string nm = w.pickname(i);
                if (r.chance(.02))
                    nm = r.of({"bogus", "nobeta", "alphaa", "Alpha", "noalpha", "no", "nocount"});
                Tok t;
                t.t = std::string(r.chance(.8) ? 1 : r.range(2, 4), '-') + nm;
                a.push_back(t);
                w.args(w.m[i].kind, a, true);
            }
            int rest = r.range(0, 3);
            if (rest) {
                Tok t = wordtok(r, true);
                a.push_back(t);
                for (int k = 1; k < rest; k++)
                    a.push_back(r.chance(.3) ? numtok(r, true) : r.chance(.2) ? Tok{"-alpha"} : wordtok(r, true));
            }
            if (r.chance(.01))
                a.push_back(Tok{"--"});
            hist += " cmdline[";
            for (auto &t : a)
                hist += " '" + t.t + "'";
            hist += " ]";
            // expected
            bool err = false;
            size_t pos = 0;
            std::vector<std::string> rem;
            while (pos < a.size() && !a[pos].t.empty() && a[pos].t[0] == '-') {
                std::string nm = a[pos].t;
                while (!nm.empty() && nm[0] == '-')
                    nm.erase(0, 1);
                pos++;
                int i = w.find(nm);
                if (nm.empty() || i < 0 || !w.apply(i, nm, a, pos, 3)) {
                    err = true;
                    break;
                }
            }
            if (!err)
                for (; pos < a.size(); pos++)
                    rem.push_back(a[pos].t);
            std::vector<const char *> av;
            for (auto &t : a)
                av.push_back(t.t.c_str());
            token_parser_t p((int)av.size(), av.data(), {"command line"});
            bool threw = false;
            std::vector<std::string> got;
            try {
                got = w.s.parse(p);
            } catch (const parse_exception &e) {
                threw = true;
            }
            EXPECT(threw == err, "rejected", "command line was {}, expected {}; after {}", threw ? "rejected" : "accepted", err ? "rejected" : "accepted", hist);
            if (!threw && !err) {
                std::string g, e;
                for (auto &x : got)
                    g += x + ",";
                for (auto &x : rem)
                    e += x + ",";
                EXPECT(got == rem, "remainder", "remaining arguments {} expected {}; after {}", g, e, hist);
            }
            vp::mark(fmt::format("cmd err{} opts{} rest{}", err, n, rest));
            w.verify(hist);
            if (err)
                return; // the tools stop here
        } else if (what < 8) { // keys from the map or the game target
            int from = r.of({1, 2, 2, 2, 3});
            bool many = r.chance(.4) && from != 3;
            entdict_t dict;
            int n = many ? r.range(1, 5) : 1;
            std::vector<std::pair<int, std::vector<Tok>>> exp;
            std::vector<std::string> names;
            for (int k = 0; k < n; k++) {
                int i;
                std::string nm = w.pickname(i);
                bool bogus = r.chance(.05);
                if (bogus)
                    nm = r.of({"classname", "bogus", "_nobeta", "wad", "Alpha"}), i = -1;
                if (std::find(names.begin(), names.end(), nm) != names.end())
                    continue;
                std::vector<Tok> a;
                if (i >= 0)
                    w.args(w.m[i].kind, a, false);
                std::string val;
                for (auto &t : a)
                    val += (val.empty() ? "" : " ") + t.t;
                if (r.chance(.1))
                    val = "  " + val + " ";
                hist += fmt::format(" key({})['{}'='{}']", from, nm, val);
                names.push_back(nm);
                size_t pos = 0;
                if (many) {
                    dict.set(nm, val);
                    if (i >= 0)
                        w.apply(i, nm, a, pos, from);
                } else {
                    setting_error want = setting_error::MISSING, got = setting_error::NONE;
                    bool mustthrow = i < 0 && from == 3, threw = false;
                    if (i >= 0)
                        want = w.apply(i, nm, a, pos, from) ? setting_error::NONE : setting_error::INVALID;
                    try {
                        got = w.s.set_setting(nm, val, (src)from);
                    } catch (const parse_exception &) {
                        threw = true;
                    }
                    EXPECT(threw == mustthrow, "set-threw", "{}", hist);
                    if (!threw && !mustthrow)
                        EXPECT(got == want, "set-result", "set_setting returned {}, expected {}; after {}", (int)got, (int)want, hist);
                }
                vp::mark(fmt::format("key kind{} src{} many{}", i < 0 ? -1 : (int)w.m[i].kind, from, many));
            }
            if (many)
                w.s.set_settings(dict, (src)from);
            w.verify(hist);
        } else if (what == 8) {
            if (r.chance(.3)) {
                w.s.reset();
                auto d = defaults();
                w.m = d;
                hist += " reset";
            } else {
                S other;
                hist += " assign(";
                // copy into another container and back out: nothing may be lost
                other.copy_from(w.s);
                if (r.chance(.5)) {
                    w.s.reset();
                    hist += "reset,";
                }
                auto keep = w.s.calls;
                w.s.copy_from(other);
                w.s.calls = keep;
                hist += "copy)";
            }
            w.verify(hist);
        } else { // set_value from a given source
            int from = r.range(0, 3), v = r.range(-5, 12);
            w.s.i1.set_value(v, (src)from);
            for (auto &x : w.m)
                if (x.names[0] == "level" && from >= x.source) {
                    x.source = from;
                    x.num = std::clamp(v, -2, 9);
                }
            hist += fmt::format(" level.set_value({},{})", v, from);
            w.verify(hist);
        }
    }
    vp::stat("operations", nops);
}
int main(int argc, char **argv)
{
    return vp::drive(argc, argv, {{"ops", case_ops}});
}
