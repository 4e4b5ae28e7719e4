#include "geomref.hh"

template<class W> static void clip_case(rng &r, const char *name)
{
    using T = typename W::float_type;
    constexpr bool flt = sizeof(T) == 4;
    Poly p = rnd_poly(r, r.chance(.15) ? 40 : 12, flt ? 600 : 2000, flt ? 600 : 3000);
    // coordinates as the real code sees them
    W w = make<W>(p.pts);
    std::vector<V> pts = get(w);
    L scale = p.r + len(p.center) + 1;
    L unitp = (flt ? 2e-7L : 4e-16L);
    T eps = r.of<T>({(T)0.1, (T)0.1, (T)0.0001, (T)0, (T)1.0, (T)0.01});
    // plane
    V n;
    L dist;
    int kind = r.range(0, 6);
    bool keepon = r.chance(.5);
    switch (kind) {
        case 0: // coplanar-ish
            n = r.chance(.5) ? p.normal : p.normal * -1;
            dist = dot(n, pts[0]) + (r.chance(.5) ? 0 : r.real(-0.3, 0.3));
            break;
        case 1: // through one vertex
            n = rnd_dir(r);
            dist = dot(n, pts[r.range(0, pts.size() - 1)]);
            break;
        case 2: { // along an edge
            size_t i = r.range(0, pts.size() - 1);
            n = unit(cross(pts[(i + 1) % pts.size()] - pts[i], p.normal)) * (r.chance(.5) ? 1 : -1);
            dist = dot(n, pts[i]);
            break;
        }
        case 3: { // near miss of the on band
            n = rnd_dir(r);
            dist = dot(n, pts[r.range(0, pts.size() - 1)]) + r.of<double>({1, -1}) * (eps + r.of<double>({0.002, -0.002, 0.03, -0.03}));
            break;
        }
        case 4: { // through two vertices
            V a = pts[r.range(0, pts.size() - 1)], b = pts[r.range(0, pts.size() - 1)];
            V c = cross(b - a, rnd_dir(r));
            n = len(c) > 1 ? unit(c) : rnd_dir(r);
            dist = dot(n, a);
            break;
        }
        default: // across the middle
            n = rnd_dir(r);
            dist = dot(n, p.center) + r.real(-1.1, 1.1) * (double)p.r;
    }
    qplane3d plane(fromV<double>(n), (double)dist);
    V pn = toV(plane.normal);
    L pd = plane.dist;
    std::vector<L> d;
    int cnt[3] = {0, 0, 0};
    L band = 64 * unitp * scale + (flt ? 0 : 1e-13L);
    for (auto &v : pts) {
        L x = dot(v, pn) - pd;
        if (fabsl(fabsl(x) - eps) < band) {
            vp::stat("skipped_ambiguous");
            return;
        }
        d.push_back(x);
        cnt[x > eps ? 0 : x < -eps ? 1 : 2]++;
    }
    auto desc = [&] {
        return fmt::format("{} plane n={} d={} eps={} keepon={} poly={}", name, str(pn), (double)pd, (double)eps, keepon, str(pts));
    };
    vp::mark(fmt::format("{}/k{}/f{}b{}o{}/e{}", name, kind, std::min(cnt[0], 3), std::min(cnt[1], 3), std::min(cnt[2], 3), (double)eps));
    // calc_sides
    {
        std::vector<T> ds(pts.size() + 1);
        std::vector<planeside_t> ss(pts.size() + 1);
        auto c = w.calc_sides(plane, ds.data(), ss.data(), eps);
        EXPECT((int)c[0] == cnt[0] && (int)c[1] == cnt[1] && (int)c[2] == cnt[2], "calc_sides", "counts {} {} {} want {} {} {}: {}", c[0], c[1],
            c[2], cnt[0], cnt[1], cnt[2], desc());
        for (size_t i = 0; i <= pts.size(); i++) {
            L x = d[i % pts.size()];
            EXPECT(fabsl(ds[i] - x) <= band, "calc_sides", "dist[{}]={} want {}: {}", i, (double)ds[i], (double)x, desc());
            EXPECT(ss[i] == (x > eps ? SIDE_FRONT : x < -eps ? SIDE_BACK : SIDE_ON), "calc_sides", "side[{}]: {}", i, desc());
        }
        auto c2 = w.calc_sides(plane, nullptr, nullptr, eps);
        EXPECT(c2 == c, "calc_sides", "null outputs change counts: {}", desc());
    }
    auto res = w.clip(plane, eps, keepon);
    EXPECT(same(get(w), pts), "clip-mutates", "clip() changed its input: {}", desc());
    W wf = w.clone(), wb = w.clone();
    auto cf = wf.clip_front(plane, eps, keepon);
    auto cb = wb.clip_back(plane, eps, keepon);
    for (int s = 0; s < 2; s++) {
        auto &o = s ? cb : cf;
        EXPECT(o.has_value() == res[s].has_value(), "clip-vs-side", "clip_{} presence {} but clip() {}: {}", s ? "back" : "front", o.has_value(),
            res[s].has_value(), desc());
        if (o && res[s])
            EXPECT(same(*o, *res[s]), "clip-vs-side", "clip_{} = {} but clip() = {}: {}", s ? "back" : "front", str(get(*o)), str(get(*res[s])), desc());
    }
    bool wantf = cnt[0] > 0 || (keepon && !cnt[1]);
    bool wantb = !(keepon && !cnt[0] && !cnt[1]) && (cnt[1] > 0 || !cnt[0]);
    EXPECT(res[0].has_value() == wantf && res[1].has_value() == wantb, "clip-presence", "got front {} back {} want {} {}: {}", res[0].has_value(),
        res[1].has_value(), wantf, wantb, desc());
    if (!cnt[0] || !cnt[1]) {
        for (int s = 0; s < 2; s++)
            if (res[s])
                EXPECT(same(get(*res[s]), pts), "clip-untouched", "unsplit polygon changed: {}", desc());
        vp::stat("unsplit");
        return;
    }
    vp::stat("split");
    L tot = 0;
    for (int s = 0; s < 2; s++) {
        if (!res[s])
            continue;
        auto want = refclip(pts, d, eps, s == 0);
        auto got = get(*res[s]);
        // the cut point's error grows as |edge|/|d_i - d_j| times the rounding of the distances
        L tol = 1e-9L;
        for (size_t i = 0; i < d.size(); i++) {
            size_t j = (i + 1) % d.size();
            if ((d[i] > eps && d[j] < -eps) || (d[i] < -eps && d[j] > eps))
                tol = std::max(tol, 256 * unitp * scale * (1 + len(pts[j] - pts[i]) / fabsl(d[i] - d[j])));
        }
        if (!EXPECT(got.size() == want.size(), "clip-shape", "side {} has {} points, want {}: got {} want {} {}", s, got.size(), want.size(), str(got), str(want), desc()))
            continue;
        for (size_t i = 0; i < got.size(); i++) {
            bool ok = near(got[i], want[i], tol);
            EXPECT(ok, "clip-shape", "side {} point {}: {} want {} tol {}: {}", s, i, str(got[i]), str(want[i]), (double)tol, desc());
        }
        // axial planes cut exactly
        for (int ax = 0; ax < 3; ax++)
            if (fabsl(pn[ax]) == 1)
                for (size_t i = 0; i < got.size(); i++) {
                    bool orig = false;
                    for (auto &v : pts)
                        orig |= near(v, got[i], 0);
                    if (!orig)
                        EXPECT((T)got[i][ax] == (T)(pd * pn[ax]), "clip-axial-exact", "cut point {} not on the axial plane: {}", str(got[i]), desc());
                }
        tot += area(got);
        // vertices of a piece stay on its side
        for (auto &v : got) {
            L x = dot(v, pn) - pd;
            EXPECT(s == 0 ? x >= -eps - tol : x <= eps + tol, "clip-side", "piece {} reaches {} across: {}", s, (double)x, desc());
        }
    }
    if (res[0] && res[1]) {
        L a = area(pts);
        L sn = len(cross(p.normal, pn));
        if (sn > 0.1L)
            EXPECT(fabsl(tot - a) <= 1e-4L * (1 + a) * (flt ? 100 : 1) + 8 * p.r * eps / sn, "clip-area", "pieces cover {} of {}: {}", (double)tot, (double)a, desc());
    }
    // cross-storage clone
    auto st = w.template clip<winding_storage_heap_t<T>>(plane, eps, keepon);
    for (int s = 0; s < 2; s++)
        EXPECT(st[s].has_value() == res[s].has_value() && (!st[s] || same(*st[s], *res[s])), "clip-storage", "storage changes the result: {}", desc());
}

template<class W> static void basics_case(rng &r, const char *name)
{
    using T = typename W::float_type;
    constexpr bool flt = sizeof(T) == 4;
    L u = flt ? 2e-7L : 4e-16L;
    Poly p = rnd_poly(r, 14, flt ? 600 : 2000, flt ? 600 : 3000);
    W w = make<W>(p.pts);
    auto pts = get(w);
    L scale = p.r + len(p.center) + 1;
    auto desc = [&] { return fmt::format("{} poly={}", name, str(pts)); };
    L a = area(pts);
    EXPECT(fabsl(w.area() - a) <= 64 * u * scale * p.r * pts.size() + 1e-9L, "area", "{} want {}: {}", (double)w.area(), (double)a, desc());
    V c{};
    for (auto &v : pts)
        c = c + v;
    c = c * (1.0L / pts.size());
    EXPECT(near(toV(w.center()), c, 64 * u * scale), "center", "{} want {}: {}", str(toV(w.center())), str(c), desc());
    auto b = w.bounds();
    for (int i = 0; i < 3; i++) {
        L lo = 1e30L, hi = -1e30L;
        for (auto &v : pts) {
            lo = std::min(lo, v[i]);
            hi = std::max(hi, v[i]);
        }
        EXPECT((L)b.mins()[i] == lo && (L)b.maxs()[i] == hi, "bounds", "axis {}: {}", i, desc());
    }
    // plane() uses the first corner: compare against it with an error bound from the corner's size
    V n = cross(pts[0] - pts[1], pts[2] - pts[1]);
    L corner = len(n) / (len(pts[0] - pts[1]) * len(pts[2] - pts[1]) + 1e-30L);
    L minl = std::min(len(pts[0] - pts[1]), len(pts[2] - pts[1]));
    L ntol = 64 * u * scale / (minl * corner + 1e-30L) + 16 * u;
    if (ntol < 0.01L) {
        auto pl = w.plane();
        EXPECT(near(toV(pl.normal), unit(n), ntol), "plane", "normal {} want {}: {}", str(toV(pl.normal)), str(unit(n)), desc());
        for (auto &v : pts)
            EXPECT(fabsl(dot(v, toV(pl.normal)) - pl.dist) <= 8 * ntol * scale + 64 * u * scale, "plane", "vertex {} off plane(): {}", str(v), desc());
        // winding edges face inwards
        auto e = w.winding_edges();
        EXPECT(e.size() == pts.size(), "edges", "{}", desc());
        for (size_t i = 0; i < e.size() && i < pts.size(); i++) {
            for (size_t k = 0; k < pts.size(); k++)
                EXPECT(dot(pts[k], toV(e[i].normal)) - e[i].dist >= -8 * ntol * scale - 1e-6L, "edges", "edge {} has vertex {} outside: {}", i, k, desc());
            L el = len(pts[(i + 1) % pts.size()] - pts[i]);
            EXPECT(fabsl(dot(pts[i], toV(e[i].normal)) - e[i].dist) <= 1e-4L * (flt ? 1000 : 1) && el > 0, "edges", "edge {} misses its vertex: {}", i, desc());
        }
        for (int k = 0; k < 8; k++) {
            // a point strictly inside / strictly outside
            V q{};
            std::vector<L> wt;
            L s = 0;
            for (size_t i = 0; i < pts.size(); i++) {
                wt.push_back(0.05 + r.unit());
                s += wt.back();
            }
            for (size_t i = 0; i < pts.size(); i++)
                q = q + pts[i] * (wt[i] / s);
            EXPECT(PointInWindingEdges(e, fromV<double>(q)), "edges-inside", "inside point {} rejected: {}", str(q), desc());
            V o = c + (q - c) * 0 + unit(pts[k % pts.size()] - c) * (p.r * 2 + 1);
            EXPECT(!PointInWindingEdges(e, fromV<double>(o)), "edges-inside", "outside point {} accepted: {}", str(o), desc());
        }
        L md = 0;
        qplane3d pp(fromV<double>(p.normal), (double)dot(p.normal, p.center) + 3);
        for (auto &v : pts)
            md = std::max(md, fabsl(dot(v, toV(pp.normal)) - pp.dist));
        EXPECT(fabsl(w.max_dist_off_plane(pp) - md) <= 64 * u * scale, "max_dist", "{} want {}: {}", (double)w.max_dist_off_plane(pp), (double)md, desc());
    }
    // flip / translate / equality
    W f = w.flip();
    auto rev = pts;
    std::reverse(rev.begin(), rev.end());
    EXPECT(same(get(f), rev), "flip", "{}", desc());
    typename W::vec3_type off((T)r.range(-100, 100), (T)r.range(-100, 100), (T)r.range(-100, 100));
    W t = w.translate(off);
    for (size_t i = 0; i < pts.size(); i++)
        for (int j = 0; j < 3; j++)
            EXPECT(t[i][j] == (T)(w[i][j] + off[j]), "translate", "{}", desc());
    EXPECT(same(get(w), pts), "const", "a const operation changed the polygon: {}", desc());
    size_t k = r.range(0, pts.size() - 1);
    W rot;
    for (size_t i = 0; i < pts.size(); i++)
        rot.push_back(w[(i + k) % pts.size()]);
    EXPECT(w.directional_equal(rot) && rot.directional_equal(w), "equal", "rotation by {} not equal: {}", k, desc());
    EXPECT(w.undirectional_equal(f) && f.undirectional_equal(rot), "equal", "flip not undirectionally equal: {}", desc());
    L mind = 1e30L;
    for (size_t i = 0; i < pts.size(); i++)
        for (size_t j = 0; j < i; j++)
            mind = std::min(mind, len(pts[i] - pts[j]));
    if (mind > 1) {
        EXPECT(!w.directional_equal(f), "equal", "opposite direction reported equal: {}", desc());
        W m = w.clone();
        size_t q = r.range(0, pts.size() - 1);
        m[q][r.range(0, 2)] += (T)0.2;
        EXPECT(!w.directional_equal(m) && !w.undirectional_equal(m), "equal", "moved vertex {} reported equal: {}", q, desc());
        W h;
        for (size_t i = 0; i + 1 < pts.size(); i++)
            h.push_back(w[i]);
        EXPECT(!w.directional_equal(h), "equal", "fewer points equal: {}", desc());
    }
    // colinear removal
    {
        std::vector<V> q;
        std::vector<bool> add;
        int added = 0;
        bool ok = true;
        for (size_t i = 0; i < pts.size(); i++) {
            V nx = pts[(i + 1) % pts.size()];
            q.push_back(pts[i]);
            add.push_back(false);
            int m = r.chance(.4) ? r.range(1, 3) : 0;
            for (int z = 1; z <= m; z++) {
                q.push_back(pts[i] + (nx - pts[i]) * (z / (L)(m + 1)));
                add.push_back(true);
                added++;
            }
        }
        W cw = make<W>(q);
        auto qq = get(cw);
        std::vector<V> want;
        for (size_t i = 0; i < qq.size(); i++) {
            V v1 = unit(qq[(i + 1) % qq.size()] - qq[i]), v2 = unit(qq[i] - qq[(i + qq.size() - 1) % qq.size()]);
            L x = dot(v1, v2) - (1.0L - DIST_EPSILON);
            if (fabsl(x) < (flt ? 1e-5L : 1e-9L))
                ok = false;
            if (x < 0)
                want.push_back(qq[i]);
        }
        if (ok) {
            cw.remove_colinear();
            EXPECT(same(get(cw), want), "colinear", "got {} want {} from {}", str(get(cw)), str(want), str(qq));
            vp::stat("colinear_points", added);
        }
    }
    // dice
    if (p.r < 1200) {
        T sub = r.of<T>({(T)32, (T)64, (T)128, (T)100, (T)512});
        if (p.r / sub < 24) {
            std::vector<std::vector<V>> pieces;
            W dw = w.clone();
            dw.dice(sub, [&](W &x) { pieces.push_back(get(x)); });
            L tot = 0;
            bool all = true;
            for (auto &x : pieces) {
                tot += area(x);
                for (int i = 0; i < 3; i++) {
                    L lo = 1e30L, hi = -1e30L;
                    for (auto &v : x) {
                        lo = std::min(lo, v[i]);
                        hi = std::max(hi, v[i]);
                    }
                    if (floorl((lo + 1 + 1e-3L) / sub) < floorl((hi - 1 - 1e-3L) / sub))
                        all = false;
                }
            }
            EXPECT(all, "dice-size", "a piece of dice({}) still crosses a grid line: {}", (double)sub, desc());
            EXPECT(fabsl(tot - a) <= 1e-3L * a + (flt ? 1.0L : 0.1L) * pieces.size(), "dice-area", "dice({}) covers {} of {}: {}", (double)sub, (double)tot, (double)a, desc());
            vp::stat("dice_pieces", pieces.size());
            if (pieces.size() > 1)
                vp::mark(fmt::format("dice{}", std::min<size_t>(pieces.size(), 40)));
        }
    }
    // big base polygon
    {
        V nn = rnd_dir(r);
        qplane3d pl(fromV<double>(nn), r.real(-3000, 3000));
        T ext = r.of<T>({(T)4096, (T)1000, (T)65536});
        W bw = W::from_plane(pl, ext);
        L tol = (flt ? 4e-6L : 1e-12L) * (ext + 4000);
        EXPECT(bw.size() == 4, "from_plane", "{} points", bw.size());
        V cc{};
        auto g = get(bw);
        for (auto &v : g) {
            EXPECT(fabsl(dot(v, toV(pl.normal)) - pl.dist) <= tol, "from_plane", "corner {} off plane {} {}", str(v), str(toV(pl.normal)), pl.dist);
            cc = cc + v * 0.25L;
        }
        EXPECT(near(cc, toV(pl.normal) * (L)pl.dist, tol), "from_plane", "center {}", str(cc));
        for (int i = 0; i < 4; i++)
            EXPECT(fabsl(len(g[i] - g[(i + 1) % 4]) - 2 * ext) <= tol * 4, "from_plane", "edge {} of {}", i, (double)ext);
        EXPECT(near(toV(bw.plane().normal), toV(pl.normal), flt ? 1e-4L : 1e-9L), "from_plane", "orientation {} want {}", str(toV(bw.plane().normal)), str(toV(pl.normal)));
    }
    // box sides
    if constexpr (!flt) {
        qvec3d lo, hi;
        for (int i = 0; i < 3; i++) {
            lo[i] = r.range(-1000, 1000);
            hi[i] = lo[i] + r.range(1, 500);
        }
        auto ws = W::aabb_windings(aabb3d(lo, hi));
        L tot = 0;
        auto pl = aabb_planes(aabb3d(lo, hi));
        for (int i = 0; i < 6; i++) {
            auto g = get(ws[i]);
            tot += area(g);
            EXPECT(g.size() == 4, "aabb_windings", "side {} has {} points, box {} {}", i, g.size(), str(toV(lo)), str(toV(hi)));
            for (auto &v : g) {
                EXPECT(fabsl(dot(v, toV(pl[i].normal)) - pl[i].dist) < 0.01L, "aabb_windings", "side {} off", i);
                for (int j = 0; j < 3; j++)
                    EXPECT(fabsl(v[j] - lo[j]) < 0.01L || fabsl(v[j] - hi[j]) < 0.01L, "aabb_windings", "side {} corner {} not a box corner {} {}", i, str(v), str(toV(lo)), str(toV(hi)));
            }
        }
        L s0 = hi[0] - lo[0], s1 = hi[1] - lo[1], s2 = hi[2] - lo[2];
        EXPECT(fabsl(tot - 2 * (s0 * s1 + s1 * s2 + s0 * s2)) <= 1e-3L * tot, "aabb_windings", "area {}", (double)tot);
    }
}

// storages behave like a plain vector under any operation sequence
template<class W> static void storage_case(rng &r, const char *name, size_t cap)
{
    W w[3];
    std::vector<std::array<double, 3>> m[3];
    std::string log;
    int ops = r.range(5, 40);
    for (int o = 0; o < ops; o++) {
        int i = r.range(0, 2), j = r.range(0, 2);
        int op = r.range(0, 9);
        log += fmt::format(" {}:{}>{}", op, i, j);
        switch (op) {
            case 0:
            case 1:
            case 2: {
                int k = r.range(1, 5);
                for (int z = 0; z < k && m[i].size() < cap; z++) {
                    double x = r.range(-1000, 1000), y = r.range(-1000, 1000), q = r.range(-1000, 1000);
                    if (r.chance(.5))
                        w[i].push_back({x, y, q});
                    else
                        w[i].emplace_back(x, y, q);
                    m[i].push_back({x, y, q});
                }
                break;
            }
            case 3:
                w[i].clear();
                m[i].clear();
                break;
            case 4: {
                size_t n = r.range(0, std::min<size_t>(cap, 14));
                size_t old = m[i].size();
                w[i].resize(n);
                m[i].resize(n);
                for (size_t z = old; z < n; z++) // grown slots are unspecified: define them
                    for (int a = 0; a < 3; a++)
                        w[i][z][a] = m[i][z][a] = (double)r.range(-99, 99);
                break;
            }
            case 5:
                if (i != j) {
                    w[i] = w[j].clone();
                    m[i] = m[j];
                }
                break;
            case 6:
                if (i != j) {
                    w[i] = std::move(w[j]);
                    m[i] = m[j];
                    w[j].clear();
                    m[j].clear();
                }
                break;
            case 7: {
                W t(w[i].begin(), w[i].end());
                w[j] = std::move(t);
                m[j] = std::vector<std::array<double, 3>>(m[i]);
                break;
            }
            case 8: {
                W t(std::move(w[i]));
                w[i] = std::move(t);
                break;
            }
            case 9:
                if (m[i].size()) {
                    size_t z = r.range(0, m[i].size() - 1);
                    w[i].at(z) = {(double)o, 2., 3.};
                    m[i][z] = {(double)o, 2., 3.};
                }
                break;
        }
        for (int q = 0; q < 3; q++) {
            bool ok = w[q].size() == m[q].size() && w[q].empty() == m[q].empty();
            size_t z = 0;
            if (ok)
                for (auto &p : w[q]) {
                    for (int a = 0; a < 3; a++)
                        ok = ok && p[a] == (typename W::float_type)m[q][z][a] && w[q][z][a] == p[a];
                    z++;
                }
            ok = ok && z == m[q].size();
            if (!EXPECT(ok, "storage", "{} slot {} differs from a plain vector after{} (size {} vs {})", name, q, log, w[q].size(), m[q].size()))
                return;
        }
        vp::mark(fmt::format("{}op{}s{}", name, op, std::min<size_t>(m[i].size(), 8)));
    }
}
static void poly_case(rng &r)
{
    using stack = winding_base_t<winding_storage_stack_t<double, MAX_POINTS_ON_WINDING>>;
    using hyb4 = winding_base_t<winding_storage_hybrid_t<double, 4>>;
    using hyb24 = winding_base_t<winding_storage_hybrid_t<double, 24>>;
    using hybf = winding_base_t<winding_storage_hybrid_t<float, 6>>;
    clip_case<winding_t>(r, "heap");
    clip_case<winding_t>(r, "heap");
    clip_case<winding3f_t>(r, "heapf");
    switch (r.range(0, 3)) {
        case 0: clip_case<stack>(r, "stack"); break;
        case 1: clip_case<hyb4>(r, "hyb4"); break;
        case 2: clip_case<hyb24>(r, "hyb24"); break;
        case 3: clip_case<hybf>(r, "hybf"); break;
    }
    switch (r.range(0, 3)) {
        case 0:
        case 1: basics_case<winding_t>(r, "heap"); break;
        case 2: basics_case<winding3f_t>(r, "heapf"); break;
        case 3: basics_case<hyb4>(r, "hyb4"); break;
    }
    storage_case<hyb4>(r, "hyb4", 1000);
    storage_case<winding_t>(r, "heap", 1000);
    storage_case<winding_base_t<winding_storage_stack_t<double, 12>>>(r, "stack12", 12);
    storage_case<winding_base_t<winding_storage_hybrid_t<double, 2>>>(r, "hyb2", 1000);
}

int main(int argc, char **argv)
{
    return vp::drive(argc, argv, {{"poly", poly_case}});
}
