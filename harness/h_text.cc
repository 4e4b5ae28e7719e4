// Text layers: tokens and entity dictionaries (mode ent), .map files and texture projection conversion (mode map).
#include "vph.hh"
#include <algorithm>
#include <memory>
#include <sstream>
#include <common/bspfile.hh>
#include <common/entdata.h>
#include <common/mapfile.hh>
#include <common/parser.hh>
#include <common/settings.hh>
using vp::rng;
using L = long double;
using KV = std::pair<std::string, std::string>;

// the data handed to the parser ends exactly where it ends: ASan sees any byte read past it
struct exact
{
    std::unique_ptr<char[]> p;
    size_t n;
    explicit exact(const std::string &s) : p(new char[s.size()]), n(s.size()) { memcpy(p.get(), s.data(), n); }
    parser_t parser() const { return parser_t(p.get(), n, parser_source_location("vp")); }
};

static std::string ws(rng &r, int &lines, bool sameline, bool must)
{
    std::string s = must ? " " : "";
    int k = r.range(0, 3);
    for (int i = 0; i < k; i++) {
        int c = r.range(0, sameline ? 2 : 6);
        if (c <= 1)
            s += " ";
        else if (c == 2)
            s += "\t";
        else if (c == 3)
            s += "\r\n", lines++;
        else if (c == 4)
            s += "\n", lines++;
        else {
            s += c == 5 ? "// a { \"comment\n" : "; quark } \"\n";
            lines++;
        }
    }
    return s;
}
static std::string chars(rng &r, const char *set, int lo, int hi)
{
    std::string s;
    int n = r.range(lo, hi), m = strlen(set);
    for (int i = 0; i < n; i++)
        s += set[r.range(0, m - 1)];
    return s;
}
static std::string quoted_body(rng &r, bool key)
{
    std::string s;
    int n = r.chance(.02) ? r.range(1000, 5000) : r.range(key ? 1 : 0, 24);
    for (int i = 0; i < n; i++) {
        int c = r.range(0, 19);
        if (c < 14)
            s += "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789_.-*/$+'{}();,:&|"[r.range(0, 58)];
        else if (c < 16)
            s += ' ';
        else if (c == 16)
            s += (char)r.range(128, 255);
        else if (c == 17 && !key)
            s += vp::rng(r.next()).of<const char *>({"\\n", "\\\"", "\\\\", "\\b", "\\t", "\\x41", "\\065", "\\'"});
        else
            s += "//";
    }
    while (key && !s.empty() && isspace((unsigned char)s.front()))
        s.erase(s.begin());
    while (key && !s.empty() && isspace((unsigned char)s.back()))
        s.pop_back();
    if (s == "}" || (key && s == "{"))
        s = "x";
    return s;
}

static void ent_case(rng &r)
{
    // 1. text with known meaning -> parsed -> written -> parsed
    int lines = 0, ne = r.range(0, 6);
    std::string text = ws(r, lines, false, false);
    std::vector<std::vector<KV>> want;
    bool trailing_bs = false;
    for (int e = 0; e < ne; e++) {
        std::vector<KV> d;
        text += "{" + ws(r, lines, false, true);
        int n = r.range(0, 12);
        for (int i = 0; i < n; i++) {
            std::string k = (!d.empty() && r.chance(.1)) ? d[r.range(0, d.size() - 1)].first : quoted_body(r, true), v;
            bool kq = true, vq = true;
            if (r.chance(.2) && k.find_first_of(" \"\\") == std::string::npos && k.find("//") == std::string::npos && k.size() && k[0] != ';' && std::all_of(k.begin(), k.end(), [](char c) { return c > 32; }) && k != "{")
                kq = false;
            if (r.chance(.15)) {
                v = chars(r, "abcxyz0123456789._-+*", 1, 12);
                vq = false;
            } else
                v = quoted_body(r, false);
            std::string kp = (kq && r.chance(.1)) ? std::string(r.range(0, 2), ' ') + k + std::string(r.range(0, 2), r.chance(.5) ? ' ' : '\t') : k;
            text += (kq ? "\"" + kp + "\"" : kp) + ws(r, lines, false, !kq && !vq ? true : !kq);
            if (vq && r.chance(.03)) {
                v += "\\";
                text += "\"" + v + "\"\n";
                lines++;
                trailing_bs = true;
            } else {
                text += vq ? "\"" + v + "\"" : v;
                text += ws(r, lines, false, !vq);
            }
            auto it = std::find_if(d.begin(), d.end(), [&](auto &p) { return p.first == k; });
            if (it == d.end())
                d.push_back({k, v});
            else
                it->second = v;
        }
        text += "}";
        if (e + 1 < ne || r.chance(.5))
            text += ws(r, lines, false, true);
        want.push_back(d);
    }
    exact ex(text);
    auto p = ex.parser();
    auto ents = EntData_Parse(p);
    auto same = [&](const std::vector<entdict_t> &got, const char *key) {
        if (!EXPECT(got.size() == want.size(), key, "{} entities, wanted {}; text {}", got.size(), want.size(), text))
            return;
        for (size_t i = 0; i < want.size(); i++) {
            std::vector<KV> g(got[i].begin(), got[i].end());
            if (!EXPECT(g == want[i], key, "entity {} differs: text {}", i, text))
                return;
        }
    };
    same(ents, "ent-parse");
    EXPECT(!p.location.line_number || *p.location.line_number <= (size_t)lines + 1, "ent-lines", "line {} of {}", *p.location.line_number, lines + 1);
    std::string out = EntData_Write(ents);
    exact ex2(out);
    auto p2 = ex2.parser();
    same(EntData_Parse(p2), "ent-roundtrip");
    vp::mark(fmt::format("ent:{}:{}:{}", ne, std::min<int>(5, text.size() / 100), trailing_bs));

    // 2. line numbers after each token of a token stream; peek has no effect; optional/sameline respect line ends
    {
        int ln = 0;
        std::string t;
        struct T { std::string s; bool q; int line; };
        std::vector<T> toks;
        int n = r.range(1, 15);
        for (int i = 0; i < n; i++) {
            t += ws(r, ln, false, i > 0 && !(toks.back().q && r.chance(.5)));
            T k;
            k.q = r.chance(.4);
            k.s = k.q ? quoted_body(r, false) : chars(r, "abc()[]{}0123-.", 1, 8);
            k.line = ln + 1;
            t += k.q ? "\"" + k.s + "\"" : k.s;
            if (k.s.size() && k.s.back() == '\\')
                t += " ";
            toks.push_back(k);
        }
        exact e3(t);
        auto q = e3.parser();
        int prev = 1;
        for (auto &k : toks) {
            if (r.chance(.3)) {
                bool ok = q.parse_token(PARSE_PEEK);
                EXPECT(ok && q.token == k.s && q.was_quoted == k.q, "token-peek", "got {} want {} in {}", q.token, k.s, t);
            }
            if (r.chance(.3)) {
                bool ok = q.parse_token(PARSE_OPTIONAL | PARSE_PEEK);
                EXPECT(ok || true, "x", "");
                // a token on the same line with no comment in between must be found
                if (k.line == prev)
                    EXPECT(ok && q.token == k.s, "token-optional", "want {} in {}", k.s, t);
                else
                    EXPECT(!ok, "token-optional-nl", "found {} across a line end in {}", q.token, t);
            }
            if (r.chance(.2)) {
                q.push_state();
                q.parse_token();
                q.pop_state();
            }
            bool ok = q.parse_token();
            EXPECT(ok && q.token == k.s && q.was_quoted == k.q, "token", "got {} want {} in {}", q.token, k.s, t);
            EXPECT(q.location.line_number && (int)*q.location.line_number == k.line, "token-line", "line {} want {} in {}", *q.location.line_number, k.line, t);
            prev = k.line;
        }
        EXPECT(!q.parse_token(), "token-end", "token {} after the end of {}", q.token, t);
    }
    // 3. dictionary operations against an ordered model
    {
        entdict_t d;
        std::vector<KV> m;
        auto find = [&](const std::string &k) { return std::find_if(m.begin(), m.end(), [&](auto &p) { return p.first == k; }); };
        const char *keys[] = {"a", "A", "ab", "origin", "_light", "light", ""};
        int n = r.range(1, 40);
        for (int i = 0; i < n; i++) {
            std::string k = keys[r.range(0, 6)], v = quoted_body(r, false);
            switch (r.range(0, 4)) {
                case 0:
                case 1: {
                    d.set(k, v);
                    auto it = find(k);
                    if (it == m.end()) m.push_back({k, v}); else it->second = v;
                    break;
                }
                case 2: {
                    d.remove(k);
                    if (auto it = find(k); it != m.end()) m.erase(it);
                    break;
                }
                case 3: {
                    std::string to = keys[r.range(0, 6)];
                    if (find(to) != m.end()) break;
                    d.rename(k, to);
                    if (auto it = find(k); it != m.end()) { auto val = it->second; m.erase(it); m.push_back({to, val}); }
                    break;
                }
                default: {
                    auto it = find(k);
                    EXPECT(d.has(k) == (it != m.end()), "dict-has", "{}", k);
                    EXPECT(d.get(k) == (it == m.end() ? std::string() : it->second), "dict-get", "{}", k);
                }
            }
            EXPECT(std::vector<KV>(d.begin(), d.end()) == m && d.size() == m.size(), "dict-model", "after {} operations", i);
        }
    }
    // 4. numbers
    {
        entdict_t d;
        double v[4] = {r.real(-5000, 5000), r.real(-1, 1), (double)r.range(-100000, 100000), r.real(-1e-3, 1e-3)};
        int n = r.range(0, 4);
        std::string s;
        for (int i = 0; i < n; i++)
            s += (i ? std::string(r.range(1, 3), ' ') : "") + fmt::format("{}", v[i]);
        d.set("v", s);
        qvec3f o(9, 9, 9);
        int got = d.get_vector("v", o);
        EXPECT(got == (n == 0 ? (s.empty() ? -1 : 0) : std::min(n, 3)), "vec-count", "{} -> {}", s, got);
        for (int i = 0; i < 3; i++)
            EXPECT(std::fabs(o[i] - (i < n ? (float)v[i] : 0.f)) <= 1e-6 * std::fabs(v[i]), "vec-value", "{}[{}] = {}", s, i, o[i]);
        EXPECT(d.get("v") == s, "vec-nosideeffect", "{}", s);
        d.set("f", fmt::format("{}", v[0]));
        EXPECT(d.get_float("f") == v[0], "float", "{}", v[0]);
        EXPECT(d.get_int("f") == (int)v[0], "int", "{}", v[0]);
        EXPECT(d.get_float("none") == 0 && d.get_int("none") == 0 && d.get("none").empty(), "missing", "x");
    }
}

// ------------------------------------------------------------------ .map
static std::string num(rng &r, double v)
{
    if (v == std::floor(v) && std::fabs(v) < 1e9 && r.chance(.7))
        return fmt::format("{}", (long long)v);
    return fmt::format("{:.17g}", v);
}
static double coord(rng &r, double lim)
{
    switch (r.range(0, 3)) {
        case 0: return std::floor(r.real(-lim, lim));
        case 1: return 16 * std::floor(r.real(-lim, lim) / 16);
        case 2: return std::floor(r.real(-lim, lim) * 8) / 8;
        default: return r.real(-lim, lim);
    }
}
struct V3
{
    L x[3];
};
static V3 v3(const qvec3d &a) { return {{a[0], a[1], a[2]}}; }
static V3 sub(V3 a, V3 b) { return {{a.x[0] - b.x[0], a.x[1] - b.x[1], a.x[2] - b.x[2]}}; }
static V3 crs(V3 a, V3 b) { return {{a.x[1] * b.x[2] - a.x[2] * b.x[1], a.x[2] * b.x[0] - a.x[0] * b.x[2], a.x[0] * b.x[1] - a.x[1] * b.x[0]}}; }
static L dt(V3 a, V3 b) { return a.x[0] * b.x[0] + a.x[1] * b.x[1] + a.x[2] * b.x[2]; }
static L len(V3 a) { return sqrtl(dt(a, a)); }

struct side_spec
{
    qvec3d p[3];
    std::string tex;
    int style; // 0 quaked 1 valve 2 tx1 3 tx2
    double sh[2], rot, sc[2], ax[2][3];
    int info; // number of Q2 values written
    int q2[3];
};
static bool ref_vecs(const side_spec &s, L out[2][4], V3 &n, L &dist)
{
    V3 p0 = v3(s.p[0]), p1 = v3(s.p[1]), p2 = v3(s.p[2]);
    n = crs(sub(p0, p1), sub(p2, p1));
    L l = len(n);
    if (l < 1e-5L)
        return false;
    for (auto &c : n.x)
        c /= l;
    dist = dt(p1, n);
    if (s.style == 1) {
        for (int i = 0; i < 2; i++) {
            for (int j = 0; j < 3; j++)
                out[i][j] = s.ax[i][j] / s.sc[i];
            out[i][3] = s.sh[i];
        }
    } else if (s.style == 0) {
        // the published Quake projection: nearest axial direction, in this order of preference
        static const int base[6][3][3] = {{{0, 0, 1}, {1, 0, 0}, {0, -1, 0}}, {{0, 0, -1}, {1, 0, 0}, {0, -1, 0}}, {{1, 0, 0}, {0, 1, 0}, {0, 0, -1}}, {{-1, 0, 0}, {0, 1, 0}, {0, 0, -1}}, {{0, 1, 0}, {1, 0, 0}, {0, 0, -1}}, {{0, -1, 0}, {1, 0, 0}, {0, 0, -1}}};
        L best = 0, second = 0;
        int bi = 0;
        for (int i = 0; i < 6; i++) {
            L d = n.x[0] * base[i][0][0] + n.x[1] * base[i][0][1] + n.x[2] * base[i][0][2];
            if (d > best) {
                second = best, best = d, bi = i;
            } else
                second = std::max(second, d);
        }
        if (best - second < 1e-9L)
            return false; // tie: rounding decides
        L a = s.rot / 180 * M_PIl, c = cosl(a), sn = sinl(a);
        int sv = base[bi][1][0] ? 0 : 1, tv = base[bi][2][1] ? 1 : 2;
        for (int i = 0; i < 2; i++) {
            L v[3] = {(L)base[bi][i + 1][0], (L)base[bi][i + 1][1], (L)base[bi][i + 1][2]};
            L ns = c * v[sv] - sn * v[tv], nt = sn * v[sv] + c * v[tv];
            v[sv] = ns, v[tv] = nt;
            for (int j = 0; j < 3; j++)
                out[i][j] = v[j] / (s.sc[i] ? s.sc[i] : 1);
            out[i][3] = s.sh[i];
        }
    } else {
        // QuArK: the three points are texture coordinates (0,0), (128,0), (0,-128) [TX1: point 2 is the s end; TX2: point 1]
        V3 u = s.style == 2 ? sub(p2, p0) : sub(p1, p0), v = s.style == 2 ? sub(p1, p0) : sub(p2, p0);
        L a = dt(u, u), b = dt(u, v), d = dt(v, v), det = a * d - b * b;
        if (fabsl(det) < 1e-3L * a * d)
            return false;
        for (int j = 0; j < 3; j++) {
            out[0][j] = 128 * (d * u.x[j] - b * v.x[j]) / det;
            out[1][j] = -128 * (a * v.x[j] - b * u.x[j]) / det;
        }
        for (int i = 0; i < 2; i++)
            out[i][3] = -(out[i][0] * p0.x[0] + out[i][1] * p0.x[1] + out[i][2] * p0.x[2]);
    }
    return true;
}
static L uv(const L v[2][4], int i, V3 p) { return v[i][0] * p.x[0] + v[i][1] * p.x[1] + v[i][2] * p.x[2] + v[i][3]; }
static side_spec make_side(rng &r, qvec3d n, double off)
{
    side_spec s{};
    qvec3d a = qv::normalize(qv::cross(n, std::fabs(n[2]) < .9 ? qvec3d(0, 0, 1) : qvec3d(1, 0, 0))), b = qv::cross(n, a);
    qvec3d c = n * off + a * coord(r, 200) + b * coord(r, 200);
    double l1 = r.real(32, 256), l2 = r.real(32, 256), ang = r.real(0, 6.28);
    bool axial = std::fabs(n[0]) + std::fabs(n[1]) + std::fabs(n[2]) < 1.0001;
    if (axial) {
        ang = M_PI / 2 * r.range(0, 3);
        l1 = std::floor(l1), l2 = std::floor(l2);
        for (int i = 0; i < 3; i++)
            c[i] = std::floor(c[i]);
    }
    qvec3d u = a * cos(ang) + b * sin(ang), v = qv::cross(n, u);
    s.p[0] = c;
    s.p[1] = c + v * l1;
    s.p[2] = c + u * l2;
    if (axial)
        for (auto &p : s.p)
            for (int i = 0; i < 3; i++)
                p[i] = std::round(p[i]);
    if (r.chance(.3))
        s.p[2] = s.p[2] + (s.p[1] - s.p[0]) * r.real(-.4, .4); // not orthogonal
    s.tex = r.of<std::string>({"rock1", "*water0", "{fence", "e1u1/metal4_2", "sky1", "+0button", "skip", "tex-ture.name"});
    s.style = r.range(0, 3);
    for (int i = 0; i < 2; i++) {
        s.sh[i] = r.chance(.5) ? (double)r.range(-512, 512) : r.real(-512, 512);
        s.sc[i] = r.chance(.4) ? r.of<double>({1, -1, .5, 2, .25}) : r.real(.2, 4) * (r.chance(.3) ? -1 : 1);
    }
    s.rot = r.chance(.3) ? 0 : r.chance(.5) ? 15.0 * r.range(-24, 24) : r.real(-360, 360);
    qvec3d t = qv::normalize(qvec3d(r.real(-1, 1), r.real(-1, 1), r.real(-1, 1)) + n * .001);
    if (r.chance(.6)) { // axes in the face plane
        double q = r.real(0, 6.28), sk = r.chance(.5) ? 0 : r.real(-.5, .5);
        qvec3d x = a * cos(q) + b * sin(q), y = b * cos(q + sk) - a * sin(q + sk);
        for (int i = 0; i < 3; i++)
            s.ax[0][i] = x[i], s.ax[1][i] = y[i];
    } else { // axial
        for (int i = 0; i < 3; i++)
            s.ax[0][i] = s.ax[1][i] = 0;
        int d = std::fabs(n[0]) > std::fabs(n[1]) ? (std::fabs(n[0]) > std::fabs(n[2]) ? 0 : 2) : (std::fabs(n[1]) > std::fabs(n[2]) ? 1 : 2);
        s.ax[0][d == 0 ? 1 : 0] = 1;
        s.ax[1][d == 2 ? 1 : 2] = -1;
    }
    (void)t;
    s.info = r.chance(.4) ? r.range(1, 3) : 0;
    for (int i = 0; i < 3; i++)
        s.q2[i] = i < s.info ? (int)r.range(-1, 1 << r.range(1, 30)) : 0;
    return s;
}
static std::string side_text(rng &r, const side_spec &s)
{
    std::string t;
    int dummy = 0;
    for (auto &p : s.p)
        t += "( " + num(r, p[0]) + " " + num(r, p[1]) + ws(r, dummy, true, true) + num(r, p[2]) + " ) ";
    t += s.tex + " ";
    if (s.style == 1)
        t += "[ " + num(r, s.ax[0][0]) + " " + num(r, s.ax[0][1]) + " " + num(r, s.ax[0][2]) + " " + num(r, s.sh[0]) + " ] [ " + num(r, s.ax[1][0]) + " " + num(r, s.ax[1][1]) + " " + num(r, s.ax[1][2]) + " " + num(r, s.sh[1]) + " ] " + num(r, s.rot) + " " + num(r, s.sc[0]) + " " + num(r, s.sc[1]);
    else
        t += num(r, s.sh[0]) + " " + num(r, s.sh[1]) + " " + num(r, s.rot) + " " + num(r, s.sc[0]) + " " + num(r, s.sc[1]);
    for (int i = 0; i < s.info; i++)
        t += " " + std::to_string(s.q2[i]);
    if (s.style >= 2)
        t += s.style == 2 ? " //TX1" : " //TX2";
    else if (r.chance(.1))
        t += " // a comment";
    return t;
}
static bool near(L a, L b, L tol) { return fabsl(a - b) <= tol; }

static void check_side(const brush_side_t &b, const side_spec &s, const char *stage, const std::string &txt)
{
    auto k = [&](const char *x) { static std::string t; t = std::string(stage) + "-" + x; return t.c_str(); };
    EXPECT(b.texture == s.tex, k("texture"), "{} vs {}: {}", b.texture, s.tex, txt);
    for (int i = 0; i < 3; i++)
        EXPECT(b.planepts[i] == s.p[i], k("points"), "point {}: {}", i, txt);
    EXPECT((s.info > 0) == b.extended_info.has_value(), k("info"), "{}", txt);
    if (b.extended_info)
        EXPECT(b.extended_info->contents == s.q2[0] && b.extended_info->flags.native == s.q2[1] && b.extended_info->value == s.q2[2], k("info-values"), "{} {} {}: {}", b.extended_info->contents, (int)b.extended_info->flags.native, b.extended_info->value, txt);
    size_t idx = s.style == 0 ? 0 : s.style == 1 ? 1 : 2;
    if (!EXPECT(b.raw.index() == idx, k("style"), "{} vs {}: {}", b.raw.index(), idx, txt))
        return;
    const texdef_quake_ed_t &q = idx == 0 ? std::get<0>(b.raw) : idx == 1 ? (const texdef_quake_ed_t &)std::get<1>(b.raw) : (const texdef_quake_ed_t &)std::get<2>(b.raw);
    EXPECT(q.shift[0] == s.sh[0] && q.shift[1] == s.sh[1] && q.rotate == s.rot && q.scale[0] == s.sc[0] && q.scale[1] == s.sc[1], k("texdef"), "{}", txt);
    if (idx == 1)
        for (int i = 0; i < 2; i++)
            for (int j = 0; j < 3; j++)
                EXPECT(std::get<1>(b.raw).axis.at(i, j) == s.ax[i][j], k("axis"), "{}", txt);
    if (idx == 2)
        EXPECT(std::get<2>(b.raw).tx2 == (s.style == 3), k("tx2"), "{}", txt);
}
// a.vecs describe the alignment `ref` at all three points (and hence, for in-plane points, everywhere)
static void check_uv(const texvecf &vecs, const L ref[2][4], const side_spec &s, const char *key, L tol, const std::string &txt)
{
    for (int i = 0; i < 3; i++)
        for (int k = 0; k < 2; k++) {
            V3 p = v3(s.p[i]);
            L got = (L)vecs.at(k, 0) * p.x[0] + (L)vecs.at(k, 1) * p.x[1] + (L)vecs.at(k, 2) * p.x[2] + vecs.at(k, 3), want = uv(ref, k, p);
            // float coefficients, entries within 1e-4 of an integer rounded to it
            L slack = fabsl(ref[k][3]) * 4e-7L;
            for (int j = 0; j < 3; j++)
                slack += fabsl(p.x[j]) * (fabsl(ref[k][j]) * 4e-7L + (fabsl(ref[k][j] - roundl(ref[k][j])) < 2e-4L ? 2e-4L : 0));
            EXPECT(near(got, want, tol * (1 + fabsl(want) / 100) + slack), key, "{} coordinate at point {}: {} should be {}; {}", k ? "t" : "s", i, (double)got, (double)want, txt);
        }
}
static void map_case(rng &r)
{
    struct ent
    {
        std::vector<KV> kv;
        std::vector<std::vector<side_spec>> br;
    };
    std::vector<ent> want;
    std::string text;
    int lines = 0;
    int ne = r.range(1, 3);
    for (int e = 0; e < ne; e++) {
        ent en;
        text += ws(r, lines, false, false) + "{\n";
        int nk = r.range(0, 5);
        std::set<std::string> used;
        for (int i = 0; i < nk; i++) {
            std::string k = quoted_body(r, true), v = quoted_body(r, false);
            if (k.empty() || !used.insert(k).second)
                continue;
            en.kv.push_back({k, v});
            text += "\"" + std::string(r.chance(.1), ' ') + k + "\" \"" + v + "\"\n";
        }
        int nb = r.range(e == 0 ? 1 : 0, 4);
        for (int b = 0; b < nb; b++) {
            std::vector<side_spec> sides;
            text += ws(r, lines, false, false) + "{\n";
            int ns = r.range(4, 9);
            std::vector<qvec3d> ns_used;
            for (int s = 0; s < ns; s++) {
                qvec3d n;
                if (r.chance(.5)) {
                    n = qvec3d(0, 0, 0);
                    n[r.range(0, 2)] = r.chance(.5) ? 1 : -1;
                } else
                    n = qv::normalize(qvec3d(r.real(-1, 1), r.real(-1, 1), r.real(-1, 1)));
                if (std::any_of(ns_used.begin(), ns_used.end(), [&](auto &o) { return std::fabs(qv::dot(o, n)) > .999; }) || !(qv::length(n) > .5))
                    continue;
                ns_used.push_back(n);
                side_spec sp = make_side(r, n, std::floor(r.real(16, 512)));
                L v[2][4];
                V3 nn;
                L d;
                bool ok = ref_vecs(sp, v, nn, d);
                L proj = ok ? fabsl(dt(crs(V3{{v[0][0], v[0][1], v[0][2]}}, V3{{v[1][0], v[1][1], v[1][2]}}), nn)) : 0;
                if (!ok || proj < 0.02L * len(V3{{v[0][0], v[0][1], v[0][2]}}) * len(V3{{v[1][0], v[1][1], v[1][2]}}))
                    continue; // alignment seen edge-on: the tools reset those on purpose
                text += side_text(r, sp) + "\n";
                sides.push_back(sp);
                if (r.chance(.1)) // exact duplicates and faces without a normal are dropped
                    text += side_text(r, sp) + "\n";
                if (r.chance(.05)) {
                    side_spec z = sp;
                    z.p[2] = z.p[1];
                    z.style = 0;
                    text += side_text(r, z) + "\n";
                }
            }
            text += "}" + ws(r, lines, false, true) + "\n";
            if (!sides.empty())
                en.br.push_back(sides);
        }
        text += e + 1 == ne && r.chance(.5) ? "}" : "}\n";
        want.push_back(en);
    }
    auto verify = [&](const map_file_t &m, const char *stage) {
        if (!EXPECT(m.entities.size() == want.size(), stage, "{} entities want {}: {}", m.entities.size(), want.size(), text))
            return false;
        for (size_t e = 0; e < want.size(); e++) {
            auto &en = m.entities[e];
            EXPECT(std::vector<KV>(en.epairs.begin(), en.epairs.end()) == want[e].kv, "map-epairs", "{} entity {}", stage, e);
            if (!EXPECT(en.brushes.size() == want[e].br.size(), "map-brushes", "{}: {} brushes want {}: {}", stage, en.brushes.size(), want[e].br.size(), text))
                return false;
            for (size_t b = 0; b < en.brushes.size(); b++) {
                if (!EXPECT(en.brushes[b].faces.size() == want[e].br[b].size(), "map-sides", "{}: {} sides want {}: {}", stage, en.brushes[b].faces.size(), want[e].br[b].size(), text))
                    return false;
                for (size_t f = 0; f < en.brushes[b].faces.size(); f++)
                    check_side(en.brushes[b].faces[f], want[e].br[b][f], stage, "");
            }
        }
        return true;
    };
    map_file_t m;
    exact ex(text);
    auto p = ex.parser();
    m.parse(p);
    if (!verify(m, "map-parse"))
        return;
    int styles[4] = {};
    for (size_t e = 0; e < want.size(); e++)
        for (size_t b = 0; b < want[e].br.size(); b++)
            for (size_t f = 0; f < want[e].br[b].size(); f++) {
                auto &s = want[e].br[b][f];
                auto &g = m.entities[e].brushes[b].faces[f];
                L ref[2][4], d;
                V3 n;
                ref_vecs(s, ref, n, d);
                styles[s.style]++;
                rng rr(1);
                std::string txt = side_text(rr, s);
                for (int i = 0; i < 3; i++)
                    EXPECT(near(g.plane.normal[i], n.x[i], 1e-9), "map-normal", "{}", txt);
                EXPECT(near(g.plane.dist, d, 1e-6), "map-dist", "{} {}", g.plane.dist, txt);
                check_uv(g.vecs, ref, s, "map-vecs", 0.01, txt);
            }
    auto reparse = [&](map_file_t &src) {
        std::ostringstream o;
        src.write(o);
        exact ex2(o.str());
        auto p2 = ex2.parser();
        map_file_t m2;
        m2.parse(p2);
        return m2;
    };
    auto m2 = reparse(m);
    verify(m2, "map-roundtrip");
    // conversion keeps geometry, surface info and the texture alignment
    for (int target = 0; target < 2; target++) {
        map_file_t c = m;
        c.convert_to(target ? texcoord_style_t::quaked : texcoord_style_t::valve_220, nullptr, {});
        auto c2 = reparse(c);
        if (!EXPECT(c2.entities.size() == want.size(), "convert-count", "{}", text))
            return;
        for (size_t e = 0; e < want.size(); e++)
            for (size_t b = 0; b < want[e].br.size(); b++)
                for (size_t f = 0; f < want[e].br[b].size(); f++) {
                    auto s = want[e].br[b][f];
                    if (c2.entities[e].brushes.size() != want[e].br.size() || c2.entities[e].brushes[b].faces.size() != want[e].br[b].size()) {
                        EXPECT(false, "convert-shape", "{}", text);
                        return;
                    }
                    auto &g = c2.entities[e].brushes[b].faces[f];
                    L ref[2][4], d;
                    V3 n;
                    ref_vecs(s, ref, n, d);
                    rng rr(1);
                    std::string txt = side_text(rr, s);
                    EXPECT(g.texture == s.tex && g.planepts[0] == s.p[0] && g.planepts[1] == s.p[1] && g.planepts[2] == s.p[2], "convert-geometry", "{}", txt);
                    EXPECT(g.extended_info.has_value() == (s.info > 0), "convert-info", "{}", txt);
                    EXPECT(g.raw.index() == (target ? 0u : 1u), "convert-style", "{} {}", g.raw.index(), txt);
                    if (!target) {
                        if (g.raw.index() == 1)
                            EXPECT(std::fabs(std::get<1>(g.raw).rotate) <= 360, "convert-valve-rotate", "{} written as the rotation; {}", std::get<1>(g.raw).rotate, txt);
                        check_uv(g.vecs, ref, s, "convert-valve", 0.02, txt);
                    } else {
                        // representable in the simple projection only without shear in the axial plane
                        int ax = 0;
                        for (int i = 1; i < 3; i++)
                            if (fabsl(n.x[i]) > fabsl(n.x[ax]) + 1e-6)
                                ax = i;
                        // alignment as a function of the two in-axis coordinates
                        int i1 = ax == 0 ? 1 : 0, i2 = ax == 2 ? 1 : 2;
                        L M[2][2];
                        for (int k = 0; k < 2; k++) {
                            M[k][0] = ref[k][i1] - ref[k][ax] * n.x[i1] / n.x[ax];
                            M[k][1] = ref[k][i2] - ref[k][ax] * n.x[i2] / n.x[ax];
                        }
                        L l0 = hypotl(M[0][0], M[0][1]), l1 = hypotl(M[1][0], M[1][1]);
                        L sh = fabsl(M[0][0] * M[1][0] + M[0][1] * M[1][1]) / (l0 * l1);
                        V3 p0 = v3(s.p[0]);
                        for (int k = 0; k < 2; k++) {
                            L got = (L)g.vecs.at(k, 0) * p0.x[0] + (L)g.vecs.at(k, 1) * p0.x[1] + (L)g.vecs.at(k, 2) * p0.x[2] + g.vecs.at(k, 3), wantuv = uv(ref, k, p0);
                            EXPECT(near(got, wantuv, 0.25L * (1 + fabsl(wantuv) / 2000)), "convert-quake-anchor", "{} at the first point: {} should be {}; {}", k ? "t" : "s", (double)got, (double)wantuv, txt);
                        }
                        if (sh < 1e-5L) {
                            check_uv(g.vecs, ref, s, "convert-quake", 0.4, txt);
                            vp::stat("quake_conversions_exact");
                        } else
                            vp::stat("quake_conversions_sheared");
                    }
                }
    }
    vp::mark(fmt::format("map:{}:{}:{}:{}:{}", ne, std::min(3, styles[0]), std::min(3, styles[1]), std::min(3, styles[2]), std::min(3, styles[3])));
}
int main(int argc, char **argv) { return vp::drive(argc, argv, {{"ent", ent_case}, {"map", map_case}}); }
