// Synthetic portal worlds (BSP + PRT written here, no qbsp involved) through the real vis; PVS/PHS/ambients judged by
// ray casting through portals, an independent loose flood and an independent loose portal-clipping reference.
#include "geomref.hh"
#include <algorithm>
#include <fstream>
#include <dlfcn.h>
#include <signal.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <unistd.h>
#include <common/bspfile.hh>
#include <common/bsputils.hh>
#include <common/prtfile.hh>
#include <vis/vis.hh>
#include <tbb/parallel_for.h>

static const bspversion_t *ver(const std::string &n)
{
    for (auto *v : bspversions)
        if (n == v->short_name)
            return v;
    return nullptr;
}
static std::vector<L> dists(const std::vector<V> &p, V n, L d)
{
    std::vector<L> o;
    for (auto &x : p)
        o.push_back(dot(n, x) - d);
    return o;
}
struct Pl
{
    V n;
    L d;
};
struct Portal
{
    std::vector<V> pts;
    Pl pl; // normal from c[0] into c[1]
    int c[2];
};
struct TNode
{
    int plane = -1;
    int kid[2] = {-1, -1};
    int cluster = -1; // structural leaf: -1 solid
    bool structural = true;
    // filled when exporting
    bool leafsolid = false;
};
struct W
{
    rng &r;
    std::vector<Pl> planes;
    std::vector<TNode> t;
    std::vector<Portal> portals;
    std::vector<std::vector<std::pair<int, int>>> out; // cluster -> (portal, side leaving)
    int nclusters = 0;
    L S = 512;
    mbsp_t bsp{};
    std::vector<int> leafcluster; // BSP leaf number -> cluster (-1 solid)
    std::vector<std::vector<int>> leafs; // cluster -> leaf numbers
    explicit W(rng &rr) : r(rr) { }
    int leafnode(bool solid)
    {
        TNode n;
        n.cluster = solid ? -1 : nclusters++;
        t.push_back(n);
        return t.size() - 1;
    }
    int split(Pl p, int a, int b)
    {
        TNode n;
        n.plane = planes.size();
        planes.push_back(p);
        n.kid[0] = a;
        n.kid[1] = b;
        t.push_back(n);
        return t.size() - 1;
    }
    static Pl axial(int a, L d)
    {
        Pl p{};
        p.n[a] = 1;
        p.d = d;
        return p;
    }
    int kd(V lo, V hi, int depth, double solid, double slant)
    {
        V s = hi - lo;
        int a = 0;
        for (int i = 1; i < 3; i++)
            if (s[i] > s[a] || (s[i] == s[a] && r.chance(.5)))
                a = i;
        if (depth == 0 || s[a] < 64)
            return leafnode(r.chance(solid));
        if (r.chance(.2)) {
            int b = r.range(0, 2);
            if (s[b] >= 64)
                a = b;
        }
        if (s[a] < 64)
            return leafnode(r.chance(solid));
        L d = lo[a] + 32 + floorl((s[a] - 64) * r.unit() / 8) * 8;
        V lo2 = lo, hi2 = hi;
        lo2[a] = d;
        hi2[a] = d;
        Pl p = axial(a, d);
        if (r.chance(slant)) { // the boxes passed down are then only a guide
            V n = p.n;
            for (int i = 0; i < 3; i++)
                if (i != a)
                    n[i] = r.of({0., 0., .25, -.5, .1, 1., .75});
            V c = (lo + hi) * .5L;
            c[a] = d;
            p.n = unit(n);
            p.d = dot(p.n, c);
        }
        int f = kd(lo2, hi, depth - 1, solid, slant), b = kd(lo, hi2, depth - 1, solid, slant);
        return split(p, f, b);
    }
    // rooms in a row along axis a, joined by windows in thin walls
    int corridor(int a, int rooms)
    {
        int u = (a + 1) % 3, v = (a + 2) % 3;
        L step = 2 * S / rooms, th = r.of({8, 16, 32});
        std::function<int(int)> rest = [&](int i) -> int {
            if (i == rooms - 1)
                return leafnode(false);
            L x = -S + step * (i + 1);
            L u0 = r.range(-28, 20) * 16, v0 = r.range(-28, 20) * 16, u1 = u0 + r.range(2, 12) * 16, v1 = v0 + r.range(2, 12) * 16;
            int wall = leafnode(false);
            wall = split(axial(u, u0), wall, leafnode(true));
            wall = split(axial(u, u1), leafnode(true), wall);
            wall = split(axial(v, v0), wall, leafnode(true));
            wall = split(axial(v, v1), leafnode(true), wall);
            int far = rest(i + 1);
            int n = split(axial(a, x + th), far, wall);
            return split(axial(a, x), n, leafnode(false));
        };
        return rest(0);
    }
    // sub-divide structural leafs into detail leafs
    int detail(int depth)
    {
        if (depth == 0 || r.chance(.3)) {
            TNode n;
            n.structural = false;
            n.leafsolid = r.chance(.3);
            t.push_back(n);
            return t.size() - 1;
        }
        int f = detail(depth - 1), b = detail(depth - 1);
        int n = split(axial(r.range(0, 2), r.range(-28, 28) * 16), f, b);
        t[n].structural = false;
        return n;
    }
    void pushdown(int n, const std::vector<V> &w, const Pl &on, int side, std::vector<std::pair<std::vector<V>, int>> &o)
    {
        if (w.size() < 3 || area(w) < 1)
            return;
        TNode &nd = t[n];
        if (nd.plane < 0 || !nd.structural) {
            o.push_back({w, nd.cluster});
            return;
        }
        Pl &p = planes[nd.plane];
        auto d = dists(w, p.n, p.d);
        L mx = *std::max_element(d.begin(), d.end()), mn = *std::min_element(d.begin(), d.end());
        if (mx < 1e-6L && mn > -1e-6L) { // coplanar: the side of the region we are coming from decides
            bool same = dot(p.n, on.n) > 0;
            pushdown(nd.kid[(side == 0) == same ? 0 : 1], w, on, side, o);
            return;
        }
        pushdown(nd.kid[0], refclip(w, d, 1e-6L, true), on, side, o);
        pushdown(nd.kid[1], refclip(w, d, 1e-6L, false), on, side, o);
    }
    void mkportals(int n, std::vector<std::pair<int, int>> &path)
    {
        if (t[n].plane < 0 || !t[n].structural)
            return;
        Pl p = planes[t[n].plane];
        V a, b;
        basis(p.n, a, b);
        V c = p.n * p.d;
        L R = 4 * S;
        std::vector<V> w{c + a * R + b * R, c + a * R - b * R, c - a * R - b * R, c - a * R + b * R};
        auto cut = [&](Pl k, bool front) {
            if (w.size() >= 3)
                w = refclip(w, dists(w, k.n, k.d), 1e-9L, front);
        };
        for (auto &k : path)
            cut(planes[k.first], k.second == 0);
        for (int i = 0; i < 3; i++) {
            cut(axial(i, -S), true);
            cut(axial(i, S), false);
        }
        if (w.size() >= 3 && area(w) > 1) {
            std::vector<std::pair<std::vector<V>, int>> f;
            pushdown(t[n].kid[0], w, p, 0, f);
            for (auto &x : f) {
                if (x.second < 0)
                    continue;
                std::vector<std::pair<std::vector<V>, int>> g;
                pushdown(t[n].kid[1], x.first, p, 1, g);
                for (auto &y : g) {
                    if (y.second < 0 || area(y.first) < 16)
                        continue;
                    Portal po;
                    po.pts = y.first;
                    // winding as qbsp writes it: plane() of the points looks into c[0]
                    po.c[0] = x.second;
                    po.c[1] = y.second;
                    V nn = p.n;
                    if (r.chance(.5)) {
                        std::swap(po.c[0], po.c[1]);
                        nn = nn * -1;
                    }
                    po.pl = {nn * -1, dot(nn * -1, po.pts[0])};
                    V k{};
                    for (size_t i = 2; i < po.pts.size(); i++)
                        k = k + cross(po.pts[0] - po.pts[i - 1], po.pts[i] - po.pts[i - 1]);
                    if (dot(k, nn) < 0)
                        std::reverse(po.pts.begin(), po.pts.end());
                    // extra collinear points, up to the file's limit, in some windings
                    if (r.chance(.1)) {
                        int want = r.range(10, 60);
                        while ((int)po.pts.size() < want) {
                            size_t e = r.range(0, po.pts.size() - 1);
                            V m = (po.pts[e] + po.pts[(e + 1) % po.pts.size()]) * .5L;
                            if (len(po.pts[e] - m) < 1)
                                break;
                            po.pts.insert(po.pts.begin() + e + 1, m);
                        }
                        std::rotate(po.pts.begin(), po.pts.begin() + r.range(0, 3), po.pts.end());
                    }
                    // degenerate leading triangle would leave plane() undefined
                    for (size_t tries = 0; tries < po.pts.size(); tries++) {
                        if (len(cross(po.pts[0] - po.pts[1], po.pts[2] - po.pts[1])) > 4)
                            break;
                        std::rotate(po.pts.begin(), po.pts.begin() + 1, po.pts.end());
                    }
                    portals.push_back(po);
                }
            }
        }
        for (int s = 0; s < 2; s++) {
            path.push_back({t[n].plane, s});
            mkportals(t[n].kid[s], path);
            path.pop_back();
        }
    }
    bool q2;
    int exportnode(int n, int cluster, V lo, V hi)
    {
        TNode &nd = t[n];
        if (nd.cluster >= 0)
            cluster = nd.cluster;
        if (nd.plane < 0) {
            bool solid = nd.structural ? nd.cluster < 0 : nd.leafsolid;
            if (solid && !q2)
                return -1;
            mleaf_t l{};
            l.contents = q2 ? (solid ? 1 : 0) : (solid ? -2 : r.of({-1, -1, -3}));
            l.cluster = solid ? -1 : cluster;
            l.visofs = -1;
            l.mins = fromV<float>(lo);
            l.maxs = fromV<float>(hi);
            bsp.dleafs.push_back(l);
            leafcluster.push_back(l.cluster);
            if (!solid)
                leafs[cluster].push_back(bsp.dleafs.size() - 1);
            return -(int)bsp.dleafs.size();
        }
        int me = bsp.dnodes.size();
        bsp.dnodes.emplace_back();
        bsp2_dnode_t o{};
        o.planenum = nd.plane;
        o.mins = fromV<float>(lo);
        o.maxs = fromV<float>(hi);
        for (int s = 0; s < 2; s++) {
            V l2 = lo, h2 = hi;
            Pl &p = planes[nd.plane];
            for (int i = 0; i < 3; i++)
                if (p.n[i] == 1)
                    (s == 0 ? l2 : h2)[i] = s == 0 ? std::max(lo[i], p.d) : std::min(hi[i], p.d);
            o.children[s] = exportnode(nd.kid[s], cluster, l2, h2);
        }
        bsp.dnodes[me] = o;
        return me;
    }
    // structural leafs with a detail subtree: attach under the cluster's node
    int root;
    void build(int kind, bool det)
    {
        int rt;
        if (kind == 0)
            rt = kd(V{{-S, -S, -S}}, V{{S, S, S}}, r.range(1, 6), r.of({.1, .3, .45}), 0);
        else if (kind == 1)
            rt = kd(V{{-S, -S, -S}}, V{{S, S, S}}, r.range(2, 5), r.of({.1, .3, .4}), .35);
        else
            rt = corridor(r.range(0, 2), r.range(2, 7));
        root = rt;
        std::vector<std::pair<int, int>> path;
        mkportals(rt, path);
        if (det)
            for (size_t i = 0, n = t.size(); i < n; i++)
                if (t[i].plane < 0 && t[i].cluster >= 0 && r.chance(.5)) {
                    int d = detail(r.range(1, 3));
                    // keep one open leaf
                    std::function<bool(int)> open = [&](int k) { return t[k].plane < 0 ? !t[k].leafsolid : open(t[k].kid[0]) || open(t[k].kid[1]); };
                    if (!open(d)) {
                        int k = d;
                        while (t[k].plane >= 0)
                            k = t[k].kid[r.range(0, 1)];
                        t[k].leafsolid = false;
                    }
                    TNode c = t[d];
                    t[i].plane = c.plane;
                    t[i].kid[0] = c.kid[0];
                    t[i].kid[1] = c.kid[1];
                    t[i].structural = false;
                    if (c.plane < 0)
                        t[i].leafsolid = false;
                }
        out.resize(nclusters);
        for (size_t i = 0; i < portals.size(); i++)
            for (int s = 0; s < 2; s++)
                out[portals[i].c[s]].push_back({(int)i, s});
    }
    void write(const std::string &base, const std::string &fmt, const std::string &prt)
    {
        q2 = fmt == "q2bsp" || fmt == "qbism";
        leafs.assign(nclusters, {});
        bsp.loadversion = ver(fmt);
        mleaf_t l0{};
        l0.contents = q2 ? 1 : -2;
        l0.cluster = -1;
        l0.visofs = -1;
        bsp.dleafs.push_back(l0);
        leafcluster.push_back(-1);
        int rt = exportnode(root, -1, V{{-S, -S, -S}}, V{{S, S, S}});
        if (!q2 && prt == "PRT1") { // no map in the file: cluster i is leaf i + 1
            std::vector<int> m(nclusters, -1);
            for (size_t i = 1; i < leafcluster.size(); i++)
                m.at(leafcluster[i]) = i - 1;
            for (size_t i = 1; i < leafcluster.size(); i++)
                leafcluster[i] = i - 1;
            for (auto &p : portals)
                for (auto &c : p.c)
                    c = m[c];
            for (auto &n : t)
                if (n.cluster >= 0)
                    n.cluster = m[n.cluster];
            for (int c = 0; c < nclusters; c++)
                leafs[c] = {c + 1};
            for (auto &o : out)
                o.clear();
            for (size_t i = 0; i < portals.size(); i++)
                for (int s = 0; s < 2; s++)
                    out[portals[i].c[s]].push_back({(int)i, s});
        }
        for (auto &p : planes) {
            dplane_t d{};
            d.normal = fromV<float>(p.n);
            d.dist = (float)p.d;
            d.type = 3;
            for (int i = 0; i < 3; i++)
                if (p.n[i] == 1)
                    d.type = i;
            bsp.dplanes.push_back(d);
        }
        dmodelh2_t m{};
        m.headnode[0] = rt;
        m.visleafs = q2 ? 0 : bsp.dleafs.size() - 1;
        // faces for the ambient sounds: one per portal, on both its leafs
        bsp.dedges.push_back({0, 0});
        static const char *tex[] = {"sky4", "*water1", "*04water2", "*slime0", "*lava1", "city2_1", "*teleport", "SKY2", "*WATER", "lava"};
        for (int i = 0; i < 10; i++) {
            mtexinfo_t t{};
            t.miptex = q2 ? 0 : 9 - i;
            t.vecs.at(0, 0) = t.vecs.at(1, 1) = 1;
            if (q2)
                snprintf(t.texture.data(), 32, "%s", tex[9 - i]);
            bsp.texinfo.push_back(t);
            if (!q2) {
                miptex_t mt;
                mt.name = tex[i];
                mt.width = mt.height = 16;
                mt.null_texture = false;
                mt.offsets = {0, 0, 0, 0};
                mt.data.resize(40);
                memcpy(mt.data.data(), tex[i], strlen(tex[i]));
                mt.data[16] = mt.data[20] = 16;
                bsp.dtex.textures.push_back(mt);
            }
        }
        std::vector<std::vector<uint32_t>> marks(bsp.dleafs.size());
        int special = r.range(0, 3); // few emitting faces, so that silence is seen as well
        for (size_t i = 1; i < bsp.dleafs.size(); i++) {
            if (leafcluster[i] < 0 || r.chance(.5) || planes.empty())
                continue;
            mface_t f{};
            f.planenum = r.range(0, planes.size() - 1);
            f.texinfo = special-- > 0 ? r.range(0, 9) : r.of({3, 4, 4, 4, 4, 0});
            f.firstedge = bsp.dsurfedges.size();
            f.numedges = 3;
            f.lightofs = -1;
            f.styles = {255, 255, 255, 255};
            for (int e = 0; e < 3; e++) {
                bsp.dvertexes.push_back(qvec3f(r.range(-500, 500), r.range(-500, 500), r.range(-500, 500)));
                bsp.dedges.push_back({(uint32_t)bsp.dvertexes.size() - 1, (uint32_t)(e == 2 ? bsp.dvertexes.size() - 3 : bsp.dvertexes.size())});
                bsp.dsurfedges.push_back(bsp.dedges.size() - 1);
            }
            marks[i].push_back(bsp.dfaces.size());
            bsp.dfaces.push_back(f);
        }
        m.numfaces = bsp.dfaces.size();
        for (size_t i = 0; i < bsp.dleafs.size(); i++) {
            bsp.dleafs[i].firstmarksurface = bsp.dleaffaces.size();
            bsp.dleafs[i].nummarksurfaces = marks[i].size();
            for (auto f : marks[i])
                bsp.dleaffaces.push_back(f);
        }
        bsp.dmodels.push_back(m);
        if (q2) {
            bsp.dareas.resize(2);
        } else
            for (auto &a : bsp.dleafs)
                a.cluster = -1;
        bsp.dentdata = "{\n\"classname\" \"worldspawn\"\n}\n";
        bspdata_t d;
        d.version = &bspver_generic;
        d.bsp = bsp;
        std::get<mbsp_t>(d.bsp).loadversion = ver(fmt);
        if (!ConvertBSPFormat(&d, ver(fmt)))
            throw std::runtime_error("generator: conversion refused");
        WriteBSPFile(base + ".bsp", &d);
        rewrite_portals(*this, base, prt);
    }
    static void rewrite_portals(const W &w, const std::string &base, const std::string &prt)
    {
        FILE *f = fopen((base + ".prt").c_str(), "w");
        int nl = w.bsp.dleafs.size() - 1;
        if (prt == "PRT1")
            fprintf(f, "PRT1\n%d\n%d\n", w.nclusters, (int)w.portals.size());
        else if (prt == "PRT2")
            fprintf(f, "PRT2\n%d\n%d\n%d\n", nl, w.nclusters, (int)w.portals.size());
        else
            fprintf(f, "PRT1-AM\n%d\n%d\n%d\n", w.nclusters, (int)w.portals.size(), nl);
        for (auto &p : w.portals) {
            fprintf(f, "%d %d %d ", (int)p.pts.size(), p.c[0], p.c[1]);
            for (auto &v : p.pts)
                fprintf(f, "(%.17g %.17g %.17g ) ", (double)v[0], (double)v[1], (double)v[2]);
            fprintf(f, "\n");
        }
        if (prt == "PRT2")
            for (int c = 0; c < w.nclusters; c++) {
                for (int l : w.leafs[c])
                    fprintf(f, "%d ", l - 1);
                fprintf(f, "-1\n");
            }
        if (prt == "PRT1-AM")
            for (int l = 1; l <= nl; l++)
                fprintf(f, "%d\n", w.leafcluster[l]);
        fclose(f);
    }
};
using Bits = std::vector<uint8_t>; // one byte per cluster
// rows of a BSP written by vis, per cluster: clusters visible (kind PVS) -- also checks that all leafs of a cluster agree
static bool readrows(const std::string &path, const W &w, std::vector<Bits> &pvs, std::vector<Bits> *phs, std::vector<std::array<uint8_t, 4>> *amb,
    std::string &why)
{
    bspdata_t d;
    fs::path p(path);
    LoadBSPFile(p, &d);
    ConvertBSPFormat(&d, &bspver_generic);
    auto &b = std::get<mbsp_t>(d.bsp);
    pvs.assign(w.nclusters, Bits(w.nclusters, 0));
    auto dec = [&](size_t ofs, size_t n, std::vector<uint8_t> &o) {
        o.clear();
        auto &v = b.dvis.bits;
        size_t i = ofs;
        while (o.size() < n) {
            if (i >= v.size())
                return false;
            if (v[i]) {
                o.push_back(v[i++]);
                continue;
            }
            if (i + 1 >= v.size() || !v[i + 1])
                return false;
            for (int k = 0; k < v[i + 1]; k++)
                o.push_back(0);
            i += 2;
        }
        return o.size() == n;
    };
    std::vector<uint8_t> row;
    if (w.q2) {
        if ((int)b.dvis.bit_offsets.size() != w.nclusters) {
            why = fmt::format("{} clusters in the vis lump instead of {}", b.dvis.bit_offsets.size(), w.nclusters);
            return false;
        }
        for (int k = 0; k < 2; k++) {
            if (k == 1 && !phs)
                break;
            if (k == 1)
                phs->assign(w.nclusters, Bits(w.nclusters, 0));
            for (int c = 0; c < w.nclusters; c++) {
                if (!dec(b.dvis.get_bit_offset((vistype_t)k, c), (w.nclusters + 7) / 8, row)) {
                    why = fmt::format("row of cluster {} does not decode", c);
                    return false;
                }
                for (int x = 0; x < (int)row.size() * 8; x++)
                    if (row[x >> 3] >> (x & 7) & 1) {
                        if (x >= w.nclusters) {
                            why = "padding bit set";
                            return false;
                        }
                        (k ? *phs : pvs)[c][x] = 1;
                    }
            }
        }
    } else {
        int nl = w.bsp.dleafs.size() - 1;
        if (b.dmodels[0].visleafs != nl) {
            why = "visleafs changed";
            return false;
        }
        std::vector<char> have(w.nclusters, 0);
        for (int l = 1; l <= nl; l++) {
            int c = w.leafcluster[l];
            if (b.dleafs[l].visofs < 0 || !dec(b.dleafs[l].visofs, (nl + 7) / 8, row)) {
                why = fmt::format("row of leaf {} does not decode (offset {})", l, b.dleafs[l].visofs);
                return false;
            }
            Bits got(w.nclusters, 2);
            for (int x = 0; x < (int)row.size() * 8; x++) {
                bool on = row[x >> 3] >> (x & 7) & 1;
                if (x >= nl) {
                    if (on) {
                        why = "padding bit set";
                        return false;
                    }
                    continue;
                }
                int k = w.leafcluster[x + 1];
                if (got[k] != 2 && got[k] != on) {
                    why = fmt::format("leafs of cluster {} disagree in the row of leaf {}", k, l);
                    return false;
                }
                got[k] = on;
            }
            if (have[c] && got != pvs[c]) {
                why = fmt::format("leafs of cluster {} have different rows", c);
                return false;
            }
            have[c] = 1;
            pvs[c] = got;
            if (amb)
                amb->push_back({b.dleafs[l].ambient_level[0], b.dleafs[l].ambient_level[1], b.dleafs[l].ambient_level[2], b.dleafs[l].ambient_level[3]});
        }
    }
    // nothing else in the file changes
    auto &o = w.bsp;
    bool same_ = b.dentdata == o.dentdata && b.dfaces.size() == o.dfaces.size() && b.dleafs.size() == o.dleafs.size() && b.dnodes.size() == o.dnodes.size() &&
                 b.dleaffaces == o.dleaffaces && b.dedges == o.dedges && b.dsurfedges == o.dsurfedges && b.dvertexes.size() == o.dvertexes.size();
    for (size_t i = 0; same_ && i < o.dleafs.size(); i++)
        same_ = b.dleafs[i].contents == o.dleafs[i].contents && b.dleafs[i].firstmarksurface == o.dleafs[i].firstmarksurface &&
                b.dleafs[i].nummarksurfaces == o.dleafs[i].nummarksurfaces && (!w.q2 || b.dleafs[i].cluster == o.dleafs[i].cluster);
    for (size_t i = 0; same_ && i < o.dnodes.size(); i++)
        same_ = b.dnodes[i].planenum == o.dnodes[i].planenum && b.dnodes[i].children == o.dnodes[i].children;
    if (!same_) {
        why = "vis changed something besides the visibility data";
        return false;
    }
    return true;
}
// ---------------------------------------------------------------- sight lines
// extend the ray (o, dir) from cluster c until it is blocked; clusters passed with a tube of radius m
static void march(const W &w, int c, V o, V dir, L m, std::vector<int> &seq)
{
    V a, b;
    basis(dir, a, b);
    L at = 0;
    for (int step = 0; step < 200; step++) {
        int best = -1, next = -1;
        L bt = 1e30L;
        for (auto &k : w.out[c]) {
            auto &p = w.portals[k.first];
            V n = k.second == 0 ? p.pl.n : p.pl.n * -1;
            L dn = dot(n, dir);
            if (dn < 1e-3L)
                continue;
            L d = k.second == 0 ? p.pl.d : -p.pl.d;
            L tt = (d - dot(n, o)) / dn;
            if (tt < at - 1e-6L || tt > bt)
                continue;
            // inside with margin, seen along the ray
            L sgn = 0;
            bool in = true;
            for (size_t i = 0; i < p.pts.size() && in; i++) {
                V u = p.pts[i] - o, v = p.pts[(i + 1) % p.pts.size()] - o;
                L ux = dot(u, a), uy = dot(u, b), vx = dot(v, a), vy = dot(v, b);
                L l = hypotl(vx - ux, vy - uy);
                if (l < 1e-6L)
                    continue;
                L cr = (ux * vy - uy * vx) / l;
                if (sgn == 0)
                    sgn = cr > 0 ? 1 : -1;
                in = cr * sgn >= m;
            }
            if (in && sgn) {
                best = k.first;
                next = p.c[1 - k.second];
                bt = tt;
            }
        }
        if (best < 0)
            return;
        at = bt;
        c = next;
        seq.push_back(c);
    }
}
static V inside(const W &w, const Portal &p, rng &r)
{
    V c{};
    L tot = 0;
    for (auto &x : p.pts) {
        L k = r.real(0, 1);
        c = c + x * k;
        tot += k;
    }
    V q = c * (1 / tot);
    return q;
}
// ---------------------------------------------------------------- loose / strict first bound
struct DP // directed portal
{
    std::vector<V> pts;
    Pl pl; // into leaf
    int leaf, from;
};
static std::vector<DP> directed(const W &w)
{
    std::vector<DP> o;
    for (auto &p : w.portals)
        for (int s = 0; s < 2; s++) {
            DP d;
            d.pts = p.pts;
            if (s)
                std::reverse(d.pts.begin(), d.pts.end());
            d.pl = s ? Pl{p.pl.n * -1, -p.pl.d} : p.pl;
            d.leaf = p.c[1 - s];
            d.from = p.c[s];
            o.push_back(d);
        }
    return o;
}
// what = +1 loose (superset), -1 strict (subset)
static std::vector<Bits> flood(const W &w, const std::vector<DP> &dp, int what, L visdist)
{
    L s = 0.02L * what;
    std::vector<std::vector<int>> byleaf(w.nclusters);
    for (size_t i = 0; i < dp.size(); i++)
        byleaf[dp[i].from].push_back(i);
    std::vector<Bits> o;
    for (size_t i = 0; i < dp.size(); i++) {
        Bits see(dp.size(), 0), m(w.nclusters, 0);
        for (size_t k = 0; k < dp.size(); k++) {
            if (k == i)
                continue;
            auto d1 = dists(dp[k].pts, dp[i].pl.n, dp[i].pl.d), d2 = dists(dp[i].pts, dp[k].pl.n, dp[k].pl.d);
            auto mm1 = std::minmax_element(d1.begin(), d1.end()), mm2 = std::minmax_element(d2.begin(), d2.end());
            bool front = *mm1.second > .1L - s || *mm1.first > -.1L - s;
            bool back = *mm2.first < -(.1L - s) || *mm2.second < .1L + s;
            if (!front || !back)
                continue;
            // coplanar and facing each other
            L on = .1L - s;
            bool cop = (*mm1.second <= on && *mm1.first > -on) || (*mm2.first >= -on && *mm2.second < on);
            if (cop && dot(dp[i].pl.n, dp[k].pl.n) < -0.99L - s / 10)
                continue;
            if (visdist > 0) {
                L a = 1e20L, b = 1e20L;
                for (auto x : d1)
                    a = std::min(a, fabsl(x));
                for (auto x : d2)
                    b = std::min(b, fabsl(x));
                if (a > visdist + s || b > visdist + s)
                    continue;
            }
            see[k] = 1;
        }
        std::vector<int> st{dp[i].leaf};
        m[dp[i].leaf] = 1;
        while (!st.empty()) {
            int l = st.back();
            st.pop_back();
            for (int k : byleaf[l])
                if (see[k] && !m[dp[k].leaf]) {
                    m[dp[k].leaf] = 1;
                    st.push_back(dp[k].leaf);
                }
        }
        o.push_back(m);
    }
    return o;
}
static std::vector<Bits> leafrows(const W &w, const std::vector<DP> &dp, const std::vector<Bits> &pr)
{
    std::vector<Bits> o(w.nclusters, Bits(w.nclusters, 0));
    for (int c = 0; c < w.nclusters; c++)
        o[c][c] = 1;
    for (size_t i = 0; i < dp.size(); i++)
        for (int k = 0; k < w.nclusters; k++)
            o[dp[i].from][k] |= pr[i][k];
    return o;
}
// ---------------------------------------------------------------- loose portal clipping (upper bound for the full vis)
struct Ref
{
    const W &w;
    const std::vector<DP> &dp;
    const std::vector<Bits> &might;
    std::vector<std::vector<int>> byleaf;
    int level;
    L slack = .3L;
    long steps = 0, cap = 60000;
    Bits vis;
    std::vector<char> stack;
    Pl srcpl;
    Ref(const W &ww, const std::vector<DP> &d, const std::vector<Bits> &m, int lv) : w(ww), dp(d), might(m), byleaf(ww.nclusters), level(lv)
    {
        for (size_t i = 0; i < dp.size(); i++)
            byleaf[dp[i].from].push_back(i);
    }
    std::vector<V> clip(const std::vector<V> &p, V n, L d) const // keep the front, generously
    {
        if (p.size() < 3)
            return {};
        auto x = dists(p, n, d - slack);
        bool any = false, all = true;
        for (auto k : x)
            any |= k > 0, all &= k >= 0;
        if (!any)
            return {};
        if (all || p.size() > 18) // the code leaves polygons whole that do not fit its fixed storage
            return p;
        return refclip(p, x, 1e-9L, true);
    }
    // clip `target` (here: the source winding) by planes separating a from b; flip as in the odd tests
    // slivers: the code may find no separating plane at all
    static bool thin(const std::vector<V> &p)
    {
        L dia = 0;
        for (auto &x : p)
            dia = std::max(dia, len(x - p[0]));
        return area(p) < 2 * dia;
    }
    std::vector<V> sep(const std::vector<V> &a, Pl apl, const std::vector<V> &b, std::vector<V> target, bool flip) const
    {
        if (thin(a) || thin(b))
            return target;
        for (size_t i = 0; i < a.size() && target.size() >= 3; i++) {
            V v1 = a[(i + 1) % a.size()] - a[i];
            // every plane through this edge the code may settle on, and whether one of them certainly qualifies
            std::vector<Pl> cand;
            bool sure = false;
            for (size_t j = 0; j < b.size(); j++) {
                L d = dot(apl.n, b[j]) - apl.d;
                if (fabsl(d) < .01L)
                    continue;
                V n = cross(v1, b[j] - a[i]);
                if (dot(n, n) < .001L)
                    continue;
                bool good = fabsl(d) > .5L && dot(n, n) > 4;
                n = unit(n);
                if (d < 0)
                    n = n * -1;
                L dist = dot(n, b[j]);
                bool ok = true, count = false;
                for (size_t k = 0; k < b.size() && ok; k++) {
                    if (k == j)
                        continue;
                    L x = dot(n, b[k]) - dist;
                    ok = x > -.5L;
                    good &= x > -.01L;
                    count |= x > .3L;
                }
                for (size_t k = 0; k < a.size() && good; k++)
                    good = dot(n, a[k]) - dist < .01L;
                if (!ok)
                    continue;
                sure |= good && count;
                cand.push_back({n, dist});
            }
            if (!sure)
                continue;
            bool agree = true;
            for (auto &c : cand)
                for (auto &v : target)
                    agree &= fabsl(dot(c.n, v) - c.d - (dot(cand[0].n, v) - cand[0].d)) < .1L;
            if (!agree)
                continue;
            target = flip ? clip(target, cand[0].n * -1, -cand[0].d) : clip(target, cand[0].n, cand[0].d);
        }
        return target;
    }
    void flow(int leaf, const std::vector<V> &source, const std::vector<V> *pass, Pl passpl, const Bits &prevmight)
    {
        if (++steps > cap || stack[leaf])
            return;
        vis[leaf] = 1;
        stack[leaf] = 1;
        for (int i : byleaf[leaf]) {
            auto &t = dp[i];
            if (!prevmight[t.leaf] || steps > cap)
                continue;
            Bits m(prevmight.size());
            bool more = false;
            for (size_t k = 0; k < m.size(); k++) {
                m[k] = prevmight[k] & might[i][k];
                more |= m[k] && !vis[k];
            }
            if (!more)
                continue;
            V bn = t.pl.n * -1;
            if (near(passpl.n, bn, .0005L))
                continue;
            auto p = clip(t.pts, srcpl.n, srcpl.d);
            if (p.empty())
                continue;
            if (!pass) {
                flow(t.leaf, source, &p, t.pl, m);
                continue;
            }
            p = clip(p, passpl.n, passpl.d);
            if (p.empty())
                continue;
            auto s = clip(source, bn, -t.pl.d);
            if (level > 2 && !s.empty())
                s = sep(p, t.pl, *pass, s, false);
            if (level > 3 && s.size() >= 3)
                s = sep(*pass, passpl, p, s, true);
            if (s.size() < 3)
                continue;
            flow(t.leaf, s, &p, t.pl, m);
        }
        stack[leaf] = 0;
    }
    bool run(int i, Bits &out_)
    {
        vis.assign(w.nclusters, 0);
        stack.assign(w.nclusters, 0);
        srcpl = dp[i].pl;
        steps = 0;
        flow(dp[i].leaf, dp[i].pts, nullptr, dp[i].pl, might[i]);
        out_ = vis;
        return steps <= cap;
    }
};
static int runvis(std::vector<std::string> args)
{
    args.insert(args.begin(), {"vis", "-nolog"});
    if (getenv("VP_DBG"))
        for (auto &a : args)
            fprintf(stderr, "%s%s", a.c_str(), &a == &args.back() ? "\n" : " ");
    return vis_main(args);
}
static std::string scratch()
{
    return fmt::format("w{}", (int)getpid());
}
static bool subset(const std::vector<Bits> &a, const std::vector<Bits> &b, std::string &why)
{
    for (size_t i = 0; i < a.size(); i++)
        for (size_t k = 0; k < a.size(); k++)
            if (a[i][k] && !b[i][k]) {
                why = fmt::format("cluster {} -> {}", i, k);
                return false;
            }
    return true;
}
struct Job
{
    std::string fmt, prt, args;
};
static std::string make(W &w, rng &r, Job &j, int force = -1)
{
    int kind = r.range(0, 2);
    j.fmt = r.of({"bsp29", "bsp2", "hl", "q2bsp", "q2bsp", "qbism", "2psb", "hexen2"});
    if (!ver(j.fmt))
        j.fmt = "bsp29";
    if (force == 2)
        j.fmt = r.chance(.5) ? "q2bsp" : "qbism";
    if (force == 1)
        j.fmt = r.of({"bsp29", "bsp2", "hl"});
    bool q2 = j.fmt == "q2bsp" || j.fmt == "qbism";
    bool det = r.chance(.4);
    w.build(kind, det);
    j.prt = q2 || !det ? "PRT1" : r.chance(.7) ? "PRT2" : "PRT1-AM";
    if (!q2 && !det && r.chance(.2))
        j.prt = "PRT2";
    return fmt::format("kind{} det{}", kind, det);
}
static const char *tmpbase = nullptr;
static const char *only = ""; // which property is being judged
static bool on(const char *key)
{
    auto k = std::string(" ") + key + " ";
    return !*only || std::string(only).find(k) != std::string::npos;
}
#define VX(c, key, ...) (on(key) ? EXPECT(c, key, __VA_ARGS__) : bool(c))
static void q_pvs(rng &r)
{
    W w(r);
    Job j;
    std::string shape = make(w, r, j, on("phs") && *only ? 2 : on("ambient") && *only ? 1 : -1);
    if (w.nclusters == 0) {
        vp::stat("empty-worlds");
        return;
    }
    std::string base = scratch();
    w.write(base, j.fmt, j.prt);
    auto dp = directed(w);
    L visdist = r.chance(.12) ? r.range(50, 900) : 0;
    auto loose = flood(w, dp, 1, visdist), strict = flood(w, dp, -1, visdist);
    auto floose = leafrows(w, dp, loose), fstrict = leafrows(w, dp, strict);
    std::string why;
    std::vector<Bits> fast, full, phs;
    std::vector<std::array<uint8_t, 4>> amb;
    auto tag = fmt::format("{} {} {} clusters{} portals{}", shape, j.fmt, j.prt, w.nclusters, w.portals.size());
    std::vector<std::string> dist;
    if (visdist > 0)
        dist = {"-visdist", fmt::format("{}", (double)visdist)};
    // fast
    {
        std::vector<std::string> a = dist;
        a.insert(a.end(), {"-fast", base + ".bsp"});
        runvis(a);
        if (!VX(readrows(base + ".bsp", w, fast, nullptr, nullptr, why), "rows", "fast {}: {}", tag, why))
            return;
        VX(subset(fstrict, fast, why), "fast-lost", "{}: facing portals let {} see, fast vis does not", tag, why);
        VX(subset(fast, floose, why), "fast-extra", "{}: fast vis lets {} see without facing portals", tag, why);
    }
    // full
    int level = r.chance(.7) ? 4 : r.range(0, 3);
    double ratio = r.of({.5, .5, 0., 1., 10., .1});
    {
        std::vector<std::string> a = dist;
        if (level != 4 || r.chance(.3))
            a.insert(a.end(), {"-level", fmt::format("{}", level)});
        if (ratio != .5)
            a.insert(a.end(), {"-targetchecks", fmt::format("{}", ratio)});
        std::vector<int> off;
        static const char *noamb[] = {"-noambientwater", "-noambientsky", "-noambientslime", "-noambientlava"};
        bool offw = false, offs = false, offsl = false, offl = false;
        if (r.chance(.3)) {
            int k = r.range(0, 4);
            a.push_back(k == 4 ? "-noambient" : noamb[k]);
            offw = k == 0 || k == 4;
            offs = k == 1 || k == 4;
            offsl = k == 2 || k == 4;
            offl = k == 3 || k == 4;
        }
        a.push_back(base + ".bsp");
        runvis(a);
        if (!VX(readrows(base + ".bsp", w, full, &phs, &amb, why), "rows", "full {}: {}", tag, why))
            return;
        VX(!fs::exists(base + ".vis"), "state-left", "state file left behind after success");
        VX(subset(full, fast, why), "full-extra", "{} level {} targetchecks {}: full vis shows {}, which the fast bound rules out", tag, level, ratio, why);
        for (int c = 0; c < w.nclusters; c++)
            VX(full[c][c] && fast[c][c], "reflexive", "{}: cluster {} does not see itself", tag, c);
        // ambient sounds
        if (!w.q2) {
            int nl = w.bsp.dleafs.size() - 1;
            std::vector<std::array<bool, 4>> emits(w.nclusters);
            static const char *tex[] = {"sky", "*water", "*04water", "*slime", "*lava", "", "", "sky", "*water", ""};
            for (auto &e : emits)
                e = {};
            for (int l = 1; l <= nl; l++) {
                auto &lf = w.bsp.dleafs[l];
                for (uint32_t k = 0; k < lf.nummarksurfaces; k++) {
                    std::string n = tex[w.bsp.texinfo[w.bsp.dfaces[w.bsp.dleaffaces[lf.firstmarksurface + k]].texinfo].miptex];
                    auto &e = emits[w.leafcluster[l]];
                    e[AMBIENT_WATER] |= ((n == "*water" || n == "*04water") && !offw) || (n == "*slime" && !offsl);
                    e[AMBIENT_SKY] |= n == "sky" && !offs;
                    e[AMBIENT_LAVA] |= n == "*lava" && !offl;
                }
            }
            if (getenv("VP_DBG"))
                for (int l = 1; l <= nl; l++)
                    fprintf(stderr, "leaf %d cluster %d amb %d %d %d %d emits %d %d %d %d\n", l, w.leafcluster[l], amb[l - 1][0], amb[l - 1][1], amb[l - 1][2], amb[l - 1][3],
                        (int)emits[w.leafcluster[l]][0], (int)emits[w.leafcluster[l]][1], (int)emits[w.leafcluster[l]][2], (int)emits[w.leafcluster[l]][3]);
            for (int l = 1; l <= nl; l++)
                for (int k = 0; k < 4; k++) {
                    bool want = false;
                    for (int c = 0; c < w.nclusters; c++)
                        want |= full[w.leafcluster[l]][c] && emits[c][k];
                    VX(amb[l - 1][k] == (want ? 255 : 0), "ambient", "{}: leaf {} sound {} level {}, emitter {}", tag, l, k, amb[l - 1][k], want);
                    vp::stat(want ? "ambient-on" : "ambient-off");
                }
        }
    }
    if (w.q2) {
        auto checkphs = [&](const char *key) {
            for (int c = 0; c < w.nclusters; c++)
                for (int k = 0; k < w.nclusters; k++) {
                    bool want = false;
                    for (int x = 0; x < w.nclusters && !want; x++)
                        want = full[c][x] && full[x][k];
                    if (!VX(phs[c][k] == want, key, "{}: cluster {} hears {}: {} instead of {}", tag, c, k, (int)phs[c][k], want))
                        return;
                }
        };
        checkphs("phs");
        if (r.chance(.3)) {
            auto before = full;
            runvis({"-phsonly", base + ".bsp"});
            if (VX(readrows(base + ".bsp", w, full, &phs, nullptr, why), "rows", "phsonly {}: {}", tag, why)) {
                VX(before == full, "phsonly-pvs", "{}: -phsonly changed the PVS", tag);
                checkphs("phsonly");
            }
            full = before;
        }
        vp::stat("q2-worlds");
    }
    // sight lines
    int rays = w.portals.empty() || !on("unsound") ? 0 : visdist > 0 ? 0 : 500;
    for (int q = 0; q < rays; q++) {
        auto &pa = r.pick(w.portals);
        V o = inside(w, pa, r), dir;
        if (r.chance(.7)) {
            auto &pb = r.pick(w.portals);
            if (&pa == &pb)
                continue;
            dir = inside(w, pb, r) - o;
            if (len(dir) < 1)
                continue;
            dir = unit(dir);
        } else
            dir = rnd_dir(r);
        L dn = dot(dir, pa.pl.n);
        if (fabsl(dn) < .01L)
            continue;
        int c0 = dn > 0 ? pa.c[0] : pa.c[1];
        // margin inside pa itself: march from a little before it
        V st = o - dir * (1e-3L / fabsl(dn));
        std::vector<int> fw{c0}, bw;
        march(w, c0, st, dir, 1.0L, fw);
        if (fw.size() < 2)
            continue; // too close to the edge of pa
        march(w, c0, st, dir * -1, 1.0L, bw);
        std::reverse(bw.begin(), bw.end());
        bw.insert(bw.end(), fw.begin(), fw.end());
        for (size_t a = 0; a < bw.size(); a++)
            for (size_t b = 0; b < bw.size(); b++) {
                VX(full[bw[a]][bw[b]], "unsound", "{} level {} targetchecks {}: a sight line through {} portals from cluster {} to {} along ({}) through ({}) is culled", tag, level, ratio,
                    b > a ? b - a : a - b, bw[a], bw[b], str(dir), str(o));
                VX(fast[bw[a]][bw[b]], "unsound-fast", "{}: sight line from cluster {} to {} is culled by fast vis", tag, bw[a], bw[b]);
            }
        vp::stat("sight-lines");
        vp::stat("sight-pairs", bw.size() * bw.size());
        vp::mark(fmt::format("{} ray{}", shape, bw.size()));
    }
    // portal clipping as an upper bound
    if (visdist == 0 && dp.size() <= 260 && on("full-loose")) {
        Ref ref(w, dp, loose, level);
        std::vector<Bits> rows(w.nclusters, Bits(w.nclusters, 0));
        bool done = true;
        for (int c = 0; c < w.nclusters; c++)
            rows[c][c] = 1;
        for (size_t i = 0; i < dp.size() && done; i++) {
            Bits b;
            done = ref.run(i, b);
            for (int k = 0; k < w.nclusters; k++)
                rows[dp[i].from][k] |= b[k];
        }
        if (done) {
            VX(subset(full, rows, why), "full-loose", "{} level {} targetchecks {}: {} is kept although no line passes the portals", tag, level, ratio, why);
            int hid = 0, tot = 0, tight = 0;
            for (int a = 0; a < w.nclusters; a++)
                for (int b = 0; b < w.nclusters; b++)
                    tot++, hid += !rows[a][b], tight += !full[a][b];
            vp::stat("bounded-pairs-hidden", hid);
            vp::stat("pairs-hidden", tight);
            vp::stat("bounded-pairs", tot);
        } else
            vp::stat("bound-too-costly");
    }
    vp::mark(tag.substr(0, tag.find(" clusters")) + fmt::format(" l{} {}", level, (int)std::log2(w.nclusters + 1)));
    vp::stat("worlds");
    std::error_code ec;
    if (!getenv("VP_KEEP"))
        for (auto e : {".bsp", ".prt", ".vis", ".vi0"})
            fs::remove(base + e, ec);
}

// ---------------------------------------------------------------- schedules
static void setsched(const std::string &s)
{
    tbb::vp::cfg().set(s.c_str());
}
static std::string slurp(const std::string &p)
{
    std::ifstream f(p, std::ios::binary);
    return {std::istreambuf_iterator<char>(f), {}};
}
// judge a full result: sound for the sight lines, inside the bounds
static void judge(rng &r, const W &w, const std::vector<DP> &dp, const std::vector<Bits> &loose, const std::vector<Bits> &fast, const std::vector<Bits> &full,
    int level, bool clipbound, const std::string &tag)
{
    std::string why;
    EXPECT(subset(full, fast, why), "extra", "{}: full vis shows {}, which the fast bound rules out", tag, why);
    for (int c = 0; c < w.nclusters; c++)
        EXPECT(full[c][c], "reflexive", "{}: cluster {} does not see itself", tag, c);
    for (int q = 0; q < 150 && !w.portals.empty(); q++) {
        auto &pa = r.pick(w.portals);
        V o = inside(w, pa, r), dir = rnd_dir(r);
        if (r.chance(.7)) {
            auto &pb = r.pick(w.portals);
            dir = inside(w, pb, r) - o;
            if (len(dir) < 1)
                continue;
            dir = unit(dir);
        }
        L dn = dot(dir, pa.pl.n);
        if (fabsl(dn) < .01L)
            continue;
        int c0 = dn > 0 ? pa.c[0] : pa.c[1];
        V st = o - dir * (1e-3L / fabsl(dn));
        std::vector<int> fw{c0}, bw;
        march(w, c0, st, dir, 1.0L, fw);
        if (fw.size() < 2)
            continue;
        march(w, c0, st, dir * -1, 1.0L, bw);
        std::reverse(bw.begin(), bw.end());
        bw.insert(bw.end(), fw.begin(), fw.end());
        for (int a : bw)
            for (int b : bw)
                if (!EXPECT(full[a][b], "unsound", "{}: a sight line from cluster {} to {} is culled", tag, a, b))
                    return;
        vp::stat("sight-lines");
    }
    if (clipbound && dp.size() <= 120) {
        Ref ref(w, dp, loose, level);
        std::vector<Bits> rows(w.nclusters, Bits(w.nclusters, 0));
        for (int c = 0; c < w.nclusters; c++)
            rows[c][c] = 1;
        for (size_t i = 0; i < dp.size(); i++) {
            Bits b;
            if (!ref.run(i, b))
                return;
            for (int k = 0; k < w.nclusters; k++)
                rows[dp[i].from][k] |= b[k];
        }
        EXPECT(subset(full, rows, why), "loose", "{}: {} is kept although no line passes the portals", tag, why);
        vp::stat("clip-bounds");
    }
}
static void q_sched(rng &r)
{
    W w(r);
    Job j;
    std::string shape = make(w, r, j);
    if (w.nclusters < 2)
        return;
    std::string base = scratch();
    w.write(base, j.fmt, j.prt);
    std::string orig = slurp(base + ".bsp"), why;
    auto dp = directed(w);
    auto loose = flood(w, dp, 1, 0);
    auto tag = fmt::format("{} {} {} clusters{} portals{}", shape, j.fmt, j.prt, w.nclusters, w.portals.size());
    int level = r.chance(.7) ? 4 : r.range(0, 3);
    std::vector<std::string> opt{"-level", fmt::format("{}", level)};
    std::vector<Bits> fast, full;
    std::string fastbytes;
    std::vector<std::string> scheds{"serial", "reverse", fmt::format("shuffle:{}", r.range(1, 1000)), fmt::format("threads:{}:{}", r.range(2, 8), r.range(1, 1000)),
        fmt::format("threads:{}:{}", r.range(2, 8), r.range(1, 1000)), "threads:4"};
    for (auto &s : scheds) {
        setsched(s);
        std::ofstream(base + ".bsp", std::ios::binary) << orig;
        runvis({"-fast", base + ".bsp"});
        auto b = slurp(base + ".bsp");
        if (fastbytes.empty()) {
            fastbytes = b;
            if (!EXPECT(readrows(base + ".bsp", w, fast, nullptr, nullptr, why), "rows", "fast {}: {}", tag, why))
                return;
        } else
            EXPECT(b == fastbytes, "fast-differs", "{}: fast vis writes another file under {} than under serial", tag, s);
    }
    std::set<std::vector<Bits>> seen;
    for (auto &s : scheds) {
        setsched(s);
        std::ofstream(base + ".bsp", std::ios::binary) << orig;
        auto a = opt;
        a.push_back(base + ".bsp");
        runvis(a);
        if (!EXPECT(readrows(base + ".bsp", w, full, nullptr, nullptr, why), "rows", "{} {}: {}", s, tag, why))
            return;
        judge(r, w, dp, loose, fast, full, level, true, tag + " under " + s);
        seen.insert(full);
        vp::stat("schedules");
        vp::mark(s.substr(0, 9) + " " + shape + std::to_string((int)std::log2(w.nclusters)));
    }
    vp::stat(seen.size() == 1 ? "worlds-same-result" : "worlds-several-results");
    setsched("threads:4");
}
// ---------------------------------------------------------------- kill and resume
static struct
{
    bool armed = false;
    std::atomic<long> ops{0};
    long kill = -1; // die at this operation
    double frac = 0; // share of the bytes of a killed write that reach the file
    std::atomic<long> skew{0};
    double jump = 0; // chance that the clock moves on by more than the save interval
    std::atomic<uint64_t> rnd{1};
    bool bspwrite = false;
} crash;
static const char *fdpath(int fd, char *b)
{
    char l[64];
    snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(l, b, 4000);
    b[n < 0 ? 0 : n] = 0;
    return b;
}
static bool ends(const char *s, const char *e)
{
    size_t a = strlen(s), b = strlen(e);
    return a >= b && !strcmp(s + a - b, e);
}
static bool op()
{
    return crash.ops.fetch_add(1) + 1 == crash.kill;
}
[[noreturn]] static void die()
{
    kill(getpid(), SIGKILL);
    for (;;)
        pause();
}
template<class F>
static F next(F, const char *n)
{
    return (F)dlsym(RTLD_NEXT, n);
}
extern "C" ssize_t write(int fd, const void *p, size_t n)
{
    static auto f = next(&::write, "write");
    if (crash.armed && fd > 2) {
        char b[4096];
        fdpath(fd, b);
        if (ends(b, ".bsp"))
            crash.bspwrite = true;
        if ((ends(b, ".vi0") || ends(b, ".vis")) && op()) {
            f(fd, p, (size_t)(n * crash.frac));
            die();
        }
    }
    return f(fd, p, n);
}
extern "C" ssize_t writev(int fd, const struct iovec *v, int c)
{
    static auto f = next(&::writev, "writev");
    if (crash.armed && fd > 2) {
        char b[4096];
        fdpath(fd, b);
        if (ends(b, ".bsp"))
            crash.bspwrite = true;
        if ((ends(b, ".vi0") || ends(b, ".vis")) && op()) {
            size_t tot = 0;
            for (int i = 0; i < c; i++)
                tot += v[i].iov_len;
            size_t left = (size_t)(tot * crash.frac);
            static auto w = next(&::write, "write");
            for (int i = 0; i < c && left; i++) {
                size_t k = std::min(left, v[i].iov_len);
                w(fd, v[i].iov_base, k);
                left -= k;
            }
            die();
        }
    }
    return f(fd, v, c);
}
extern "C" int rename(const char *a, const char *b) noexcept
{
    static auto f = next(&::rename, "rename");
    if (crash.armed && op())
        die();
    int k = f(a, b);
    if (crash.armed && op())
        die();
    return k;
}
extern "C" int remove(const char *a) noexcept
{
    static auto f = next(&::remove, "remove");
    if (crash.armed && op())
        die();
    int k = f(a);
    if (crash.armed && op())
        die();
    return k;
}
extern "C" int clock_gettime(clockid_t c, struct timespec *t) noexcept
{
    int k = (int)syscall(SYS_clock_gettime, c, t);
    if (crash.armed && c == CLOCK_REALTIME) {
        if (!crash.bspwrite && op())
            die();
        if (crash.jump > 0) {
            uint64_t z = crash.rnd.fetch_add(0x9e3779b97f4a7c15ull);
            z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
            z ^= z >> 31;
            if ((z & 0xffff) < crash.jump * 0x10000)
                crash.skew += 301;
        }
        t->tv_sec += crash.skew;
    }
    return k;
}
// vis in a child process; returns its operations, or -1 if it died as planned, -2 if it failed on its own
static long child(const std::vector<std::string> &args, long killat, double frac, double jump, uint64_t seed, int *status)
{
    int p[2];
    if (pipe(p))
        abort();
    fflush(nullptr);
    pid_t pid = fork();
    if (!pid) {
        close(p[0]);
        crash.kill = killat;
        crash.frac = frac;
        crash.jump = jump;
        crash.rnd = seed;
        crash.armed = true;
        try {
            runvis(args);
        } catch (const std::exception &e) {
            fprintf(stderr, "child: %s\n", e.what());
            _exit(3);
        }
        crash.armed = false;
        long n = crash.ops;
        if (write(p[1], &n, sizeof n) != sizeof n)
            _exit(4);
        _exit(0);
    }
    close(p[1]);
    long n = -2;
    if (read(p[0], &n, sizeof n) != sizeof n)
        n = -2;
    close(p[0]);
    waitpid(pid, status, 0);
    if (WIFSIGNALED(*status) && WTERMSIG(*status) == SIGKILL)
        return -1;
    return n;
}
static void q_resume(rng &r)
{
    setsched("serial");
    W w(r);
    Job j;
    std::string shape = make(w, r, j);
    if (w.portals.size() < 2)
        return;
    std::string base = scratch();
    std::error_code ec;
    for (auto e : {".vis", ".vi0"})
        fs::remove(base + e, ec);
    w.write(base, j.fmt, j.prt);
    // the portal file is older than any state
    fs::last_write_time(base + ".prt", fs::file_time_type::clock::now() - std::chrono::seconds(100));
    std::string orig = slurp(base + ".bsp"), prt = slurp(base + ".prt"), why;
    auto dp = directed(w);
    auto loose = flood(w, dp, 1, 0);
    auto tag = fmt::format("{} {} {} clusters{} portals{}", shape, j.fmt, j.prt, w.nclusters, w.portals.size());
    std::vector<Bits> fast, ref, full;
    runvis({"-fast", base + ".bsp"});
    if (!EXPECT(readrows(base + ".bsp", w, fast, nullptr, nullptr, why), "rows", "fast {}: {}", tag, why))
        return;
    std::ofstream(base + ".bsp", std::ios::binary) << orig;
    runvis({base + ".bsp"});
    if (!EXPECT(readrows(base + ".bsp", w, ref, nullptr, nullptr, why), "rows", "{}: {}", tag, why))
        return;
    for (int round = 0; round < 3; round++) {
        bool threads = r.chance(.3);
        double jump = r.of({0., .02, .1, .5, 1.});
        int killed = 0;
        std::string hist;
        std::ofstream(base + ".bsp", std::ios::binary) << orig;
        for (auto e : {".vis", ".vi0"})
            fs::remove(base + e, ec);
        setsched(threads ? fmt::format("threads:3:{}", r.range(1, 99)) : std::string("serial"));
        uint64_t seed = r.range(1, 1000000);
        int st;
        long n = child({base + ".bsp"}, -1, 0, jump, seed, &st);
        if (!EXPECT(n > 0, "died", "{}: uninterrupted vis in a child fails, status {}", tag, st))
            return;
        std::ofstream(base + ".bsp", std::ios::binary) << orig;
        for (auto e : {".vis", ".vi0"})
            fs::remove(base + e, ec);
        for (int t = r.range(1, 3); t > 0; t--) {
            long at = r.chance(.3) ? n - r.range(0, 12) : r.range(1, (int)n);
            if (at < 1)
                at = 1;
            double frac = r.of({0., 1., .5, r.real(0, 1), r.real(0, .1)});
            long k = child({base + ".bsp"}, at, frac, jump, seed, &st);
            bool v = fs::exists(base + ".vis"), v0 = fs::exists(base + ".vi0");
            hist += fmt::format(" [killed at {} of {} (write {:.2f}), left{}{}]", at, n, frac, v ? " .vis" : "", v0 ? " .vi0" : "");
            if (k == -1) {
                killed++;
                vp::stat(v && v0 ? "left-both" : v ? "left-state" : v0 ? "left-temporary" : "left-nothing");
                vp::mark(fmt::format("{}{}{} {}", v, v0, threads, shape));
            } else if (k == -2) {
                EXPECT(false, "died", "{}:{} vis does not run again after a kill, status {}", tag, hist, st);
                return;
            } else
                break;
        }
        EXPECT(slurp(base + ".prt") == prt, "inputs", "{}:{} the portal file changed", tag, hist);
        long k = child({base + ".bsp"}, -1, 0, r.chance(.5) ? jump : 0, seed, &st);
        if (!EXPECT(k >= 0, "died", "{}:{} vis does not run again after a kill, status {}", tag, hist, st))
            return;
        if (!EXPECT(readrows(base + ".bsp", w, full, nullptr, nullptr, why), "rows", "{}:{} {}", tag, hist, why))
            return;
        EXPECT(!fs::exists(base + ".vis") && !fs::exists(base + ".vi0"), "state-left", "{}:{} state left behind after success", tag, hist);
        judge(r, w, dp, loose, fast, full, 4, threads, tag + hist);
        if (!threads)
            EXPECT(full == ref, "differs", "{}:{} resumed run gives another result than an uninterrupted one", tag, hist);
        vp::stat("resumed", killed > 0);
    }
    setsched("threads:4");
}
// a state of another portal file is not used: killed run, then another world under the same name
static void q_stale(rng &r)
{
    setsched("serial");
    std::string base = scratch(), why;
    std::error_code ec;
    for (auto e : {".vis", ".vi0"})
        fs::remove(base + e, ec);
    W a(r);
    Job j;
    make(a, r, j);
    if (a.portals.size() < 2)
        return;
    a.write(base, j.fmt, j.prt);
    auto old = fs::file_time_type::clock::now() - std::chrono::seconds(100);
    fs::last_write_time(base + ".prt", old);
    int st;
    long n = child({"-noautoclean", base + ".bsp"}, -1, 0, .3, 7, &st);
    if (n < 0 || !EXPECT(fs::exists(base + ".vis"), "noautoclean", "-noautoclean removed the state"))
        return;
    fs::last_write_time(base + ".vis", old + std::chrono::seconds(10));
    // same number of portals and clusters: the numbering of the portals differs
    W b = a;
    for (size_t i = b.portals.size(); i > 1; i--)
        std::swap(b.portals[i - 1], b.portals[r.range(0, i - 1)]);
    for (auto &o : b.out)
        o.clear();
    for (size_t i = 0; i < b.portals.size(); i++)
        for (int s = 0; s < 2; s++)
            b.out[b.portals[i].c[s]].push_back({(int)i, s});
    W::rewrite_portals(b, base, j.prt);
    bool newer = r.chance(.7);
    fs::last_write_time(base + ".prt", newer ? old + std::chrono::seconds(20) : old);
    std::vector<std::string> args{base + ".bsp"};
    if (!newer)
        args.insert(args.begin(), "-nostate");
    runvis(args);
    auto dp = directed(b);
    auto loose = flood(b, dp, 1, 0);
    auto fast = leafrows(b, dp, loose);
    std::vector<Bits> full;
    auto tag = fmt::format("{} {} clusters{} portals{} {}", j.fmt, j.prt, b.nclusters, b.portals.size(), newer ? "newer portal file" : "-nostate");
    if (!EXPECT(readrows(base + ".bsp", b, full, nullptr, nullptr, why), "rows", "{}: {}", tag, why))
        return;
    judge(r, b, dp, loose, fast, full, 4, true, tag);
    vp::stat("stale-states");
    setsched("threads:4");
}
// damaged portal files: refused with the BSP untouched, or a complete result
static void q_damage(rng &r)
{
    setsched("serial");
    std::string base = scratch(), why;
    std::error_code ec;
    for (auto e : {".vis", ".vi0"})
        fs::remove(base + e, ec);
    W w(r);
    Job j;
    make(w, r, j);
    if (w.nclusters == 0)
        return;
    w.write(base, j.fmt, j.prt);
    std::string prt = slurp(base + ".prt"), bsp = slurp(base + ".bsp");
    if (r.chance(.2)) { // no visibility data to work from
        bool ok = true;
        try {
            runvis({"-phsonly", base + ".bsp"});
        } catch (const std::exception &e) {
            ok = false;
        }
        EXPECT(!ok && slurp(base + ".bsp") == bsp, "phsonly", "vis -phsonly without visibility data: {}", ok ? "accepted" : "refused, but changed the BSP");
    }
    std::vector<std::string> t; // tokens and the white space between them
    for (size_t i = 0; i < prt.size();) {
        size_t k = i;
        bool sp = isspace((uint8_t)prt[i]);
        while (k < prt.size() && (bool)isspace((uint8_t)prt[k]) == sp)
            k++;
        t.push_back(prt.substr(i, k - i));
        i = k;
    }
    std::string what;
    for (int n = r.range(1, 2); n > 0; n--) {
        size_t i = r.chance(.3) ? r.range(0, std::min<size_t>(t.size() - 1, 8)) : r.range(0, t.size() - 1);
        switch (r.range(0, 5)) {
            case 0:
                what += fmt::format(" cut at token {} of {}", i, t.size());
                t.resize(i);
                break;
            case 1:
                what += fmt::format(" token {} '{}' removed", i, t[i]);
                t.erase(t.begin() + i);
                break;
            case 2: t.insert(t.begin() + i, t[i]); what += fmt::format(" token {} doubled", i); break;
            default: {
                std::string v = r.of<std::string>({"-1", "0", "1", "2", "3", "63", "64", "65", "2147483647", "2147483648", "-2147483648", "99999999999999999999", "x", "(", ")", "1e9", "PRT1", "PRT2", "PRT1-AM",
                    std::to_string(w.nclusters), std::to_string(w.nclusters + 1), std::to_string(w.nclusters - 1), std::to_string(w.bsp.dleafs.size()), ""});
                what += fmt::format(" token {} '{}' -> '{}'", i, t[i], v);
                t[i] = v;
            }
        }
        if (t.empty())
            break;
    }
    std::string out;
    for (auto &x : t)
        out += x;
    if (r.chance(.2) && out.size())
        out.resize(r.range(0, out.size() - 1)), what += " cut";
    {
        FILE *f = fopen((base + ".prt").c_str(), "wb");
        fwrite(out.data(), 1, out.size(), f);
        fclose(f);
    }
    bool refused = false;
    try {
        runvis({"-fast", base + ".bsp"});
        if (r.chance(.5))
            runvis({base + ".bsp"});
    } catch (const std::exception &e) {
        refused = true;
        why = e.what();
    }
    vp::stat(refused ? "damaged portal files refused" : "damaged portal files used");
    vp::mark(fmt::format("prt {} {} {}", j.prt, refused, refused ? why.substr(0, 30) : ""));
    if (refused)
        EXPECT(slurp(base + ".bsp") == bsp, "refused-changed", "vis failed ({}) but changed the BSP:{}", why, what);
    else {
        bspdata_t d;
        fs::path p(base + ".bsp");
        LoadBSPFile(p, &d);
        EXPECT(true, "used", "");
        // losing data at the end of the file can never go unnoticed
        size_t need = prt.find_last_not_of(" \n\r\t") + 1;
        if (out.size() < prt.size() && prt.compare(0, out.size(), out) == 0 && (j.prt != "PRT1" || w.portals.size()))
            EXPECT(out.size() + 2 >= need, "truncated", "vis accepted a portal file of {} bytes cut to {}:{}", prt.size(), out.size(), what);
    }
    setsched("threads:4");
}
int main(int argc, char **argv)
{
    auto mode = [](const char *keys) {
        return [keys](rng &r) {
            only = keys;
            q_pvs(r);
        };
    };
    return vp::drive(argc, argv,
        {{"pvs", q_pvs}, {"sight", mode(" unsound unsound-fast ")}, {"bounds", mode(" fast-lost fast-extra full-extra reflexive full-loose ")},
            {"phs", mode(" phs phsonly phsonly-pvs ")}, {"ambient", mode(" ambient ")}, {"rows", mode(" rows state-left ")}, {"sched", q_sched}, {"resume", q_resume}, {"stale", q_stale}, {"damage", q_damage}});
}
