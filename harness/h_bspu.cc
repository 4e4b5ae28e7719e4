// common/bsputils.cc on synthetic BSPs: spatial queries (mode query), PVS rows (mode vis), lightmap coordinates (mode lm).
#include "geomref.hh"
#include <algorithm>
#include <fstream>
#include <memory>
#include <sstream>
#include <unistd.h>
#include <common/bsputils.hh>
#include <common/bspfile_q1.hh>
#include <common/bspfile_q2.hh>

static const bspversion_t *ver(const char *n)
{
    for (auto *v : bspversions)
        if (!strcmp(n, v->short_name))
            return v;
    return nullptr;
}
struct Cons
{
    int plane;
    int side; // 0 front, 1 back
};
struct LeafPath
{
    std::vector<Cons> cons;
    int node; // negative child value (leaf or contents)
    int parent = 0, pside = -1;
};
struct NodePath
{
    std::vector<Cons> cons;
    int node;
};
struct Model
{
    std::vector<LeafPath> leafs;
    std::vector<NodePath> nodes;
    std::vector<LeafPath> hull[4];
};
struct World
{
    mbsp_t bsp{};
    std::vector<Model> models;
    rng &r;
    explicit World(rng &rr) : r(rr) { }
    int addplane()
    {
        if (bsp.dplanes.size() > 3 && r.chance(.15))
            return r.range(0, bsp.dplanes.size() - 1);
        dplane_t p{};
        V n = rnd_dir(r);
        bool axial = false;
        int big = 0;
        for (int i = 0; i < 3; i++) {
            if (fabsl(n[i]) > fabsl(n[big]))
                big = i;
        }
        for (int i = 0; i < 3; i++)
            if (n[i] == 1)
                axial = true, big = i;
        p.normal = fromV<float>(n);
        p.dist = r.chance(.5) ? (float)(r.range(-16, 16) * 16) : (float)r.real(-300, 300);
        p.type = axial ? big : 3 + big;
        bsp.dplanes.push_back(p);
        return bsp.dplanes.size() - 1;
    }
    static L pd(const dplane_t &p, V x) { return dot(toV(p.normal), x) - (L)p.dist; }
    void addface(int planenum, int side, std::vector<V> pts, int texinfo)
    {
        mface_t f{};
        f.planenum = planenum;
        f.side = side;
        f.texinfo = texinfo;
        f.lightofs = -1;
        f.firstedge = bsp.dsurfedges.size();
        f.numedges = pts.size();
        if (bsp.dedges.empty())
            bsp.dedges.push_back({0, 0}); // edge 0 cannot be referenced in reverse
        uint32_t v0 = bsp.dvertexes.size();
        for (auto &p : pts)
            bsp.dvertexes.push_back(fromV<float>(p));
        for (size_t i = 0; i < pts.size(); i++) {
            uint32_t a = v0 + i, b = v0 + (i + 1) % pts.size();
            bool rev = r.chance(.5);
            bsp.dedges.push_back(rev ? bsp2_dedge_t{b, a} : bsp2_dedge_t{a, b});
            bsp.dsurfedges.push_back(rev ? -(int)(bsp.dedges.size() - 1) : (int)(bsp.dedges.size() - 1));
        }
        bsp.dfaces.push_back(f);
    }
    int addleaf(bool q2)
    {
        mleaf_t l{};
        l.visofs = -1;
        l.cluster = -1;
        l.contents = q2 ? r.of({0, 1, 1, 2, 8, 16, 32, 0x8000000, 0x8000001}) : r.of({-1, -1, -2, -3, -4, -5, -6});
        bsp.dleafs.push_back(l);
        return -(int)bsp.dleafs.size();
    }
    // builds nodes; path = constraints so far, poly-region by planes
    int build(Model &m, int depth, std::vector<Cons> &path, bool q2, int maxdepth)
    {
        if (depth >= maxdepth || (depth > 1 && r.chance(.15))) {
            int c = (!q2 && r.chance(.3)) ? -1 : addleaf(q2);
            if (q2 && r.chance(.1) && bsp.dleafs.size() > 1)
                c = -1;
            m.leafs.push_back({path, c});
            return c;
        }
        int pl = addplane();
        int nn = bsp.dnodes.size();
        bsp.dnodes.emplace_back();
        bsp.dnodes[nn].planenum = pl;
        m.nodes.push_back({path, nn});
        // polygon of the node's plane inside its region
        uint32_t first = bsp.dfaces.size(), num = 0;
        {
            V n = toV(bsp.dplanes[pl].normal), a, b;
            basis(n, a, b);
            V c = n * (bsp.dplanes[pl].dist / dot(n, n));
            std::vector<V> poly{c + a * 500 + b * 500, c + a * 500 - b * 500, c - a * 500 - b * 500, c - a * 500 + b * 500};
            if (dot(cross(poly[0] - poly[1], poly[2] - poly[1]), n) < 0)
                std::reverse(poly.begin(), poly.end());
            for (auto &k : path) {
                if (poly.size() < 3)
                    break;
                std::vector<L> d;
                for (auto &p : poly)
                    d.push_back(pd(bsp.dplanes[k.plane], p));
                poly = refclip(poly, d, 1e-9L, k.side == 0);
            }
            if (poly.size() >= 3 && area(poly) > 50) {
                int cnt = r.range(0, 3);
                for (int i = 0; i < cnt; i++) {
                    auto q = poly;
                    if (r.chance(.6)) { // cut it
                        V dir = a * r.real(-1, 1) + b * r.real(-1, 1);
                        V mid{};
                        for (auto &p : q)
                            mid = mid + p * (1.0L / q.size());
                        std::vector<L> d;
                        for (auto &p : q)
                            d.push_back(dot(dir, p - mid));
                        q = refclip(q, d, 1e-9L, true);
                    }
                    if (q.size() < 3 || !(area(q) >= 50) || !(len(q[0]) < 1e5L))
                        continue;
                    bool thin = false;
                    for (size_t k = 0; k < q.size(); k++)
                        thin |= len(q[k] - q[(k + 1) % q.size()]) < 0.5L;
                    if (thin)
                        continue;
                    int side = r.range(0, 1);
                    if (side)
                        std::reverse(q.begin(), q.end());
                    addface(pl, side, q, r.range(-1, (int)bsp.texinfo.size()));
                    num++;
                }
            }
        }
        bsp.dnodes[nn].firstface = first;
        bsp.dnodes[nn].numfaces = num;
        for (int s = 0; s < 2; s++) {
            path.push_back({pl, s});
            int c = build(m, depth + 1, path, q2, maxdepth);
            bsp.dnodes[nn].children[s] = c;
            path.pop_back();
        }
        return nn;
    }
    int buildclip(std::vector<LeafPath> &out, int depth, std::vector<Cons> &path, int parent, int pside, int maxdepth)
    {
        if (depth >= maxdepth || (depth > 0 && r.chance(.2))) {
            int c = r.of({-1, -2, -3, -4, -5, -6, -15});
            out.push_back({path, c, parent, pside});
            return c;
        }
        int pl = addplane();
        int nn = bsp.dclipnodes.size();
        bsp.dclipnodes.emplace_back();
        bsp.dclipnodes[nn].planenum = pl;
        for (int s = 0; s < 2; s++) {
            path.push_back({pl, s});
            int c = buildclip(out, depth + 1, path, nn, s, maxdepth);
            bsp.dclipnodes[nn].children[s] = c;
            path.pop_back();
        }
        return nn;
    }
};
// -1 out, 0 unsure, 1 in
static int inpath(const mbsp_t &b, const std::vector<Cons> &cons, const qvec3d &p, L slack)
{
    int res = 1;
    for (auto &c : cons) {
        const dplane_t &pl = b.dplanes[c.plane];
        L d;
        bool exact = pl.type < 3;
        if (exact)
            d = (L)p[pl.type] - (L)pl.dist;
        else
            d = World::pd(pl, toV(p));
        if (exact && slack == 0) {
            if ((d >= 0) != (c.side == 0))
                return -1;
            continue;
        }
        L s = slack + 2e-4L;
        if (c.side == 1)
            d = -d;
        if (d < -s)
            return -1;
        if (d <= s)
            res = 0;
    }
    return res;
}
static void q_query(rng &r)
{
    World w(r);
    bool q2 = r.chance(.4);
    auto &b = w.bsp;
    b.loadversion = q2 ? ver(r.chance(.5) ? "q2bsp" : "qbism") : ver(r.of({"bsp29", "bsp2", "hl"}));
    if (!b.loadversion) {
        vp::fail("setup", "no version");
        return;
    }
    // textures
    static const char *names[] = {"sky1", "SKY_x", "*lava1", "*LAVA", "*slime0", "*water", "*tele", "wall", "", "lava", "skip"};
    int nt = r.range(1, 5);
    for (int i = 0; i < nt; i++) {
        miptex_t m;
        m.name = names[r.range(0, 10)];
        m.width = m.height = 16;
        if (!q2)
            b.dtex.textures.push_back(m);
        mtexinfo_t t{};
        t.miptex = r.range(0, i);
        t.flags.native = q2 ? r.of({0, 4, 8, 16, 32, 1, 0x88}) : 0;
        if (q2)
            snprintf(t.texture.data(), 32, "e1u1/t%d", i);
        b.texinfo.push_back(t);
    }
    // leaf 0
    {
        mleaf_t l{};
        l.contents = q2 ? 1 : -2;
        l.cluster = -1;
        l.visofs = -1;
        b.dleafs.push_back(l);
    }
    int nm = r.range(1, 3);
    for (int mi = 0; mi < nm; mi++) {
        Model m;
        dmodelh2_t d{};
        std::vector<Cons> path;
        d.firstface = b.dfaces.size();
        d.headnode[0] = w.build(m, 0, path, q2, r.of({0, 1, 3, 5, 7}));
        d.numfaces = b.dfaces.size() - d.firstface;
        if (!q2)
            for (int h = 1; h < 4; h++)
                d.headnode[h] = w.buildclip(m.hull[h], 0, path, 0, -1, r.of({0, 2, 4, 6}));
        b.dmodels.push_back(d);
        w.models.push_back(m);
    }
    // clusters
    std::map<int, std::vector<int>> wantcl;
    for (auto &lp : w.models[0].leafs) {
        int ln = -1 - lp.node;
        if (ln == 0)
            continue;
        if (r.chance(.7))
            b.dleafs[ln].cluster = r.range(0, 5);
        if (b.dleafs[ln].cluster >= 0)
            wantcl[b.dleafs[ln].cluster].push_back(ln);
    }
    // submodel leafs carry clusters as well: they are not the world's
    for (size_t mi = 1; mi < w.models.size(); mi++)
        for (auto &lp : w.models[mi].leafs)
            if (-1 - lp.node > 0)
                b.dleafs[-1 - lp.node].cluster = r.range(-1, 5);
    auto gotcl = ClusterToLeafnumsMap(&b);
    for (auto &k : gotcl)
        std::sort(k.second.begin(), k.second.end());
    for (auto &k : wantcl)
        std::sort(k.second.begin(), k.second.end());
    EXPECT(gotcl == wantcl, "cluster-map", "{} clusters instead of {}", gotcl.size(), wantcl.size());
    EXPECT(BSP_GetWorldModel(&b) == &b.dmodels[0], "worldmodel", "");
    for (int i = -1; i <= nm; i++) {
        auto *got = BSP_DModelForModelString(&b, fmt::format("*{}", i));
        EXPECT(got == (i >= 0 && i < nm ? &b.dmodels[i] : nullptr), "model-string", "*{} of {}", i, nm);
    }
    EXPECT(!BSP_DModelForModelString(&b, "progs/x.mdl") && !BSP_DModelForModelString(&b, ""), "model-string", "non-brush");
    for (int mi = 0; mi < nm; mi++) {
        auto &m = w.models[mi];
        auto &dm = b.dmodels[mi];
        std::multiset<int> seen, want;
        BSP_VisitAllLeafs(b, dm, [&](const mleaf_t &l) { seen.insert(&l - b.dleafs.data()); });
        for (auto &lp : m.leafs)
            want.insert(-1 - lp.node);
        EXPECT(seen == want, "visit-leafs", "{} visited of {}", seen.size(), want.size());
        if (dm.numfaces) {
            aabb3f bb = Model_BoundsOfFaces(b, dm);
            qvec3f lo(1e9f), hi(-1e9f);
            for (int fi = dm.firstface; fi < dm.firstface + dm.numfaces; fi++)
                for (int e = 0; e < b.dfaces[fi].numedges; e++) {
                    int se = b.dsurfedges[b.dfaces[fi].firstedge + e];
                    auto &v = b.dvertexes[se < 0 ? b.dedges[-se][1] : b.dedges[se][0]];
                    for (int k = 0; k < 3; k++) {
                        lo[k] = std::min(lo[k], v[k]);
                        hi[k] = std::max(hi[k], v[k]);
                    }
                }
            EXPECT(bb.mins() == lo && bb.maxs() == hi, "model-bounds", "model {}", mi);
        }
    }
    // faces' own accessors
    for (size_t fi = 0; fi < b.dfaces.size(); fi++) {
        auto *f = &b.dfaces[fi];
        EXPECT(Face_GetNum(&b, f) == (int)fi && BSP_GetFace((const mbsp_t *)&b, fi) == f, "face-num", "face {}", fi);
        auto pts = Face_Points(&b, f);
        auto wd = Face_Winding(&b, f);
        bool ok = pts.size() == (size_t)f->numedges && wd.size() == pts.size();
        L ax = 0;
        std::vector<V> vp;
        for (int e = 0; ok && e < f->numedges; e++) {
            int se = b.dsurfedges[f->firstedge + e];
            auto vi = se < 0 ? b.dedges[-se][1] : b.dedges[se][0];
            auto &v = b.dvertexes[vi];
            vp.push_back(toV(v));
            ok = pts[e] == v && Face_PointAtIndex(&b, f, e) == v && GetSurfaceVertexPoint(&b, f, e) == v && Face_VertexAtIndex(&b, f, e) == (int)vi &&
                 Vertex_GetPos(&b, vi) == v;
            for (int k = 0; ok && k < 3; k++)
                ok = (float)wd[e][k] == v[k];
        }
        EXPECT(ok, "face-points", "face {}", fi);
        auto pl = Face_Plane(&b, f);
        auto nn = Face_Normal(&b, f);
        auto &dp = b.dplanes[f->planenum];
        float sg = f->side ? -1.f : 1.f;
        EXPECT(pl.normal == dp.normal * sg && pl.dist == dp.dist * sg && qvec3f(nn) == dp.normal * sg, "face-plane", "face {} side {}", fi, f->side);
        // centroid
        V c{};
        L tot = 0;
        for (size_t i = 2; i < vp.size(); i++) {
            L a = len(cross(vp[i - 1] - vp[0], vp[i] - vp[0])) / 2;
            c = c + (vp[0] + vp[i - 1] + vp[i]) * (a / 3);
            tot += a;
        }
        EXPECT(near(c * (1 / tot), toV(Face_Centroid(&b, f)), 0.05L), "face-centroid", "face {}: {}: {} instead of {}", fi, str(vp),  str(toV(Face_Centroid(&b, f))),
            str(c * (1 / tot)));
        bool tok = f->texinfo >= 0 && f->texinfo < (int)b.texinfo.size();
        EXPECT(Face_Texinfo(&b, f) == (tok ? &b.texinfo[f->texinfo] : nullptr) && BSP_GetTexinfo(&b, f->texinfo) == Face_Texinfo(&b, f), "face-texinfo",
            "texinfo {}", f->texinfo);
        std::string nm2 = !tok ? "" : q2 ? std::string(b.texinfo[f->texinfo].texture.data()) : b.dtex.textures[b.texinfo[f->texinfo].miptex].name;
        EXPECT(nm2 == Face_TextureName(&b, f) && nm2 == Face_TextureNameView(&b, f), "face-texname", "'{}' instead of '{}'", Face_TextureName(&b, f), nm2);
        if (!q2) {
            std::string lw = nm2;
            for (auto &ch : lw)
                ch = tolower(ch);
            int wc = lw.substr(0, 3) == "sky" ? -6 : lw.substr(0, 5) == "*lava" ? -5 : lw.substr(0, 6) == "*slime" ? -4 : lw.substr(0, 1) == "*" ? -3 : -2;
            EXPECT(Face_ContentsOrSurfaceFlags(&b, f) == wc, "face-contents", "'{}' -> {}", nm2, Face_ContentsOrSurfaceFlags(&b, f));
            EXPECT(Face_IsTranslucent(&b, f) == (wc <= -3 && wc >= -5), "face-translucent", "'{}'", nm2);
        } else if (tok) {
            int fl = b.texinfo[f->texinfo].flags.native;
            EXPECT(Face_ContentsOrSurfaceFlags(&b, f) == fl && Face_IsTranslucent(&b, f) == !!(fl & (8 | 16 | 32)), "face-translucent", "flags {}", fl);
        }
    }
    // markfaces / leafbrushes
    for (auto &l : b.dleafs) {
        l.firstmarksurface = b.dleaffaces.size();
        l.nummarksurfaces = b.dfaces.empty() ? 0 : r.range(0, 3);
        for (uint32_t i = 0; i < l.nummarksurfaces; i++)
            b.dleaffaces.push_back(r.range(0, b.dfaces.size() - 1));
        if (q2) {
            l.firstleafbrush = b.dleafbrushes.size();
            l.numleafbrushes = r.range(0, 2);
            for (uint32_t i = 0; i < l.numleafbrushes; i++)
                b.dleafbrushes.push_back(r.range(0, 4));
        }
    }
    b.dbrushes.resize(5);
    for (auto &l : b.dleafs) {
        auto mf = Leaf_Markfaces(&b, &l);
        bool ok = mf.size() == l.nummarksurfaces;
        for (size_t i = 0; ok && i < mf.size(); i++)
            ok = mf[i] == &b.dfaces[b.dleaffaces[l.firstmarksurface + i]];
        EXPECT(ok, "markfaces", "leaf");
        auto lb = Leaf_Brushes(&b, &l);
        ok = lb.size() == l.numleafbrushes;
        for (size_t i = 0; ok && i < lb.size(); i++)
            ok = lb[i] == &b.dbrushes[b.dleafbrushes[l.firstleafbrush + i]];
        EXPECT(ok, "leafbrushes", "leaf");
    }
    // point queries
    for (int q = 0; q < 60; q++) {
        int mi = r.range(0, nm - 1);
        auto &m = w.models[mi];
        auto *dm = &b.dmodels[mi];
        qvec3d p;
        const mface_t *onface = nullptr;
        int kind = r.range(0, 3);
        if (kind == 0 || b.dfaces.empty())
            p = qvec3d(r.real(-400, 400), r.real(-400, 400), r.real(-400, 400));
        else if (kind == 1)
            p = qvec3d((double)r.range(-25, 25) * 16, (double)r.range(-25, 25) * 16, (double)r.range(-25, 25) * 16);
        else if (dm->numfaces) {
            onface = &b.dfaces[r.range(dm->firstface, dm->firstface + dm->numfaces - 1)];
            V c{};
            L tot = 0;
            for (int e = 0; e < onface->numedges; e++) {
                L k = r.real(0, 1);
                c = c + toV(Face_PointAtIndex(&b, onface, e)) * k;
                tot += k;
            }
            c = c * (1 / tot);
            V n = toV(Face_Plane(&b, onface).normal);
            c = c + n * r.of({0.0, 0.0, 0.05, -0.05, 0.09, -0.09, 0.2, -0.2, 1.5});
            p = fromV<double>(c);
        } else
            p = qvec3d(r.real(-400, 400), 0, 16);
        // containing leaf
        auto *leaf = BSP_FindLeafAtPoint(&b, dm, p);
        int ln = leaf - b.dleafs.data();
        int sure = -1, amb = 0;
        bool admissible = false;
        for (auto &lp : m.leafs) {
            int in = inpath(b, lp.cons, p, 0);
            if (in == 1)
                sure = -1 - lp.node;
            if (in == 0)
                amb++;
            if (in >= 0 && -1 - lp.node == ln)
                admissible = true;
        }
        EXPECT(sure >= 0 ? ln == sure : admissible, "leaf-at-point", "model {} point {} -> leaf {}, want {}", mi, str(toV(p)), ln, sure);
        vp::mark(fmt::format("leaf {} nodes{} sure{}", kind, (int)std::log2(1 + m.nodes.size()), sure >= 0));
        EXPECT(BSP_FindContentsAtPoint(&b, {}, dm, p) == leaf->contents && BSP_FindContentsAtPoint(&b, 0, dm, p) == leaf->contents, "contents-at-point",
            "hull 0 {}", str(toV(p)));
        // solid, with 0.1 of slack
        bool must = false, can = false;
        for (auto &lp : m.leafs) {
            int c = b.dleafs[-1 - lp.node].contents;
            bool solid = q2 ? (c & 1) : (c == -2 || c == -6);
            if (!solid)
                continue;
            int res = 1;
            for (auto &k : lp.cons) {
                L d = World::pd(b.dplanes[k.plane], toV(p)) * (k.side ? -1 : 1);
                if (d < -0.1L - 2e-4L) {
                    res = -1;
                    break;
                }
                if (d < -0.1L + 2e-4L)
                    res = 0;
            }
            must |= res == 1;
            can |= res >= 0;
        }
        bool got = Light_PointInSolid(&b, dm, p);
        EXPECT(must ? got : (got ? can : true), "point-in-solid", "model {} point {} -> {} (must {} can {})", mi, str(toV(p)), got, must, can);
        if (mi == 0)
            EXPECT(Light_PointInWorld(&b, p) == got, "point-in-world", "{}", str(toV(p)));
        vp::mark(fmt::format("solid {} {} {}", got, must, can));
        // clip hulls
        if (!q2)
            for (int h = 1; h < 4; h++) {
                auto info = BSP_FindClipnodeAtPoint(&b, h, dm, p);
                const LeafPath *s = nullptr;
                bool adm = false;
                for (auto &lp : m.hull[h]) {
                    int in = inpath(b, lp.cons, p, 0);
                    if (in == 1)
                        s = &lp;
                    if (in >= 0 && lp.node == info.contents && lp.parent == info.parent_clipnode && lp.pside == (int)info.side)
                        adm = true;
                }
                EXPECT(adm && (!s || (s->node == info.contents && s->parent == info.parent_clipnode && s->pside == (int)info.side)), "clipnode-at-point",
                    "hull {} point {}: contents {} parent {} side {}", h, str(toV(p)), info.contents, info.parent_clipnode, (int)info.side);
                EXPECT(BSP_FindContentsAtPoint(&b, h, dm, p) == info.contents, "contents-at-point", "hull {} {}", h, str(toV(p)));
            }
        // faces touching the point
        qvec3d wanted{};
        int wk = r.range(0, 3);
        if (wk == 1 && onface)
            wanted = Face_Normal(&b, onface);
        if (wk == 2 && onface)
            wanted = -Face_Normal(&b, onface);
        if (wk == 3)
            wanted = fromV<double>(rnd_dir(r));
        auto faces = BSP_FindFacesAtPoint(&b, dm, p, wanted);
        auto *one = BSP_FindFaceAtPoint(&b, dm, p, wanted);
        EXPECT(one ? std::find(faces.begin(), faces.end(), one) != faces.end() : faces.empty(), "face-at-point", "single result disagrees with the list");
        for (int fi = 0; fi < (int)b.dfaces.size(); fi++) {
            auto *f = &b.dfaces[fi];
            bool listed = std::count(faces.begin(), faces.end(), f);
            if (fi < dm->firstface || fi >= dm->firstface + dm->numfaces) {
                EXPECT(!listed, "face-at-point", "face of another model");
                continue;
            }
            V n = toV(Face_Plane(&b, f).normal);
            L d = dot(n, toV(p)) - Face_Plane(&b, f).dist;
            int res = fabsl(d) > 0.1L + 5e-4L ? -1 : fabsl(d) < 0.1L - 5e-4L ? 1 : 0;
            bool any = wanted[0] == 0 && wanted[1] == 0 && wanted[2] == 0;
            L dp = dot(n, toV(wanted));
            if (!any && dp < -1e-5L)
                res = -1;
            else if (!any && dp < 1e-5L && res == 1)
                res = 0;
            auto pts = Face_Points(&b, f);
            for (size_t e = 0; e < pts.size() && res >= 0; e++) {
                V a = toV(pts[e]), c = toV(pts[(e + 1) % pts.size()]);
                if (len(c - a) < 0.05L) {
                    res = std::min(res, 0);
                    continue;
                }
                V in = cross(unit(c - a), n);
                L ed = dot(in, toV(p) - a);
                L sl = 2e-3L + 0.1L * std::min((L)1, 0.5L / len(c - a));
                if (ed < -sl)
                    res = -1;
                else if (ed < sl)
                    res = std::min(res, 0);
            }
            if (res)
                EXPECT(listed == (res == 1), "face-at-point", "face {} at {} (dist {}) listed {} wanted ({})", fi, str(toV(p)), (double)d, listed,
                    str(toV(wanted)));
            if (res == 1)
                vp::stat("faces-found");
        }
        // decision node
        if (wk) {
            qvec3d wn = wk == 3 && r.chance(.5) && !m.nodes.empty() ? qvec3d(b.dplanes[b.dnodes[r.pick(m.nodes).node].planenum].normal) : wanted;
            if (wn == qvec3d(0, 0, 0))
                continue;
            auto *nd = BSP_FindNodeAtPoint(&b, dm, p, wn);
            bool found = false;
            for (auto &np : m.nodes) {
                auto &pl = b.dplanes[b.dnodes[np.node].planenum];
                L d = World::pd(pl, toV(p));
                L c = fabsl(dot(toV(pl.normal), toV(wn)));
                int in = inpath(b, np.cons, p, 0.1L);
                // reachable when no ancestor puts the point more than 0.1 on the other side
                int reach = 1;
                for (auto &k : np.cons) {
                    L dd = World::pd(b.dplanes[k.plane], toV(p)) * (k.side ? -1 : 1);
                    if (dd < -0.1L - 2e-4L)
                        reach = -1;
                    else if (dd < -0.1L + 2e-4L && reach > 0)
                        reach = 0;
                }
                (void)in;
                bool surely = reach == 1 && fabsl(d) < 0.1L - 5e-4L && fabsl(c - 1) < 0.0095L;
                bool maybe = reach >= 0 && fabsl(d) < 0.1L + 5e-4L && fabsl(c - 1) < 0.0105L;
                if (surely)
                    EXPECT(nd != nullptr, "node-at-point", "node {} not found at {}", np.node, str(toV(p)));
                if (nd == &b.dnodes[np.node]) {
                    found = true;
                    EXPECT(maybe, "node-at-point", "node {} returned at {} (dist {}, cos {})", np.node, str(toV(p)), (double)d, (double)c);
                }
            }
            EXPECT(!nd || found, "node-at-point", "node of another model");
            vp::stat(nd ? "nodes-found" : "nodes-none");
        }
    }
    // out of range leaf numbers are refused, not read
    for (int bad : {-1, (int)b.dleafs.size(), 1 << 30}) {
        bool threw = false;
        try {
            BSP_GetLeaf(&b, bad);
        } catch (const std::exception &) {
            threw = true;
        }
        EXPECT(threw, "leaf-bounds", "leaf {} of {} was returned", bad, b.dleafs.size());
    }
    for (int i = 0; i < (int)b.dleafs.size(); i++)
        EXPECT(BSP_GetLeaf(&b, i) == &b.dleafs[i] && BSP_GetLeafFromNodeNum(&b, -1 - i) == &b.dleafs[i], "leaf-bounds", "leaf {}", i);
}

// ---------------------------------------------------------------- PVS rows
static std::vector<uint8_t> rnd_row(rng &r, size_t n)
{
    std::vector<uint8_t> v(n);
    int kind = r.range(0, 5);
    size_t i = 0;
    while (i < n) {
        size_t run = kind == 0 ? 1 : kind == 1 ? r.of({254, 255, 256, 257, 509, 510, 511, 512, 513, 765, 766}) : r.range(1, kind == 2 ? 700 : 8);
        bool zero = kind == 3 ? false : kind == 4 ? true : r.chance(.55);
        for (size_t k = 0; k < run && i < n; k++, i++)
            v[i] = zero ? 0 : r.range(1, 255);
    }
    return v;
}
static std::vector<uint8_t> refdecode(const uint8_t *in, const uint8_t *end, size_t n, bool &full)
{
    std::vector<uint8_t> o;
    full = true;
    while (o.size() < n) {
        if (in >= end) {
            full = false;
            break;
        }
        if (*in) {
            o.push_back(*in++);
            continue;
        }
        if (in + 1 >= end || in[1] == 0) {
            full = false;
            break;
        }
        for (int k = 0; k < in[1] && o.size() < n; k++)
            o.push_back(0);
        in += 2;
    }
    o.resize(n);
    return o;
}
static void q_vis(rng &r)
{
    // one row
    for (int t = 0; t < 20; t++) {
        size_t n = r.of({0, 1, 2, 7, 31, 255, 256, 257, 510, 511, 1024, 3000});
        if (r.chance(.5))
            n = r.range(0, 2000);
        auto row = rnd_row(r, n);
        std::unique_ptr<uint8_t[]> src(new uint8_t[n]);
        std::copy(row.begin(), row.end(), src.get());
        std::vector<uint8_t> c;
        CompressRow(src.get(), n, std::back_inserter(c));
        c.shrink_to_fit();
        std::unique_ptr<uint8_t[]> in(new uint8_t[c.size()]), out(new uint8_t[n]);
        std::copy(c.begin(), c.end(), in.get());
        memset(out.get(), 0xa5, n);
        DecompressVis(in.get(), in.get() + c.size(), out.get(), out.get() + n);
        EXPECT(!memcmp(out.get(), row.data(), n), "row-roundtrip", "{} bytes", n);
        bool full;
        EXPECT(refdecode(c.data(), c.data() + c.size(), n, full) == row && full, "row-format", "{} bytes: the row does not decode by the published rule", n);
        // minimal: exactly consumed
        size_t used = 0, produced = 0;
        while (used < c.size()) {
            if (c[used])
                used++, produced++;
            else
                produced += used + 1 < c.size() ? c[used + 1] : 0, used += 2;
        }
        EXPECT(used == c.size() && produced == n, "row-format", "{} bytes of row encode {} bytes", produced, n);
        vp::mark(fmt::format("row {} {}", (int)std::log2(n + 1), (int)std::log2(c.size() + 1)));
        // damaged / short input into exactly sized buffers
        if (c.size()) {
            size_t m = r.range(0, c.size());
            std::unique_ptr<uint8_t[]> d(new uint8_t[m]);
            std::copy(c.begin(), c.begin() + m, d.get());
            for (int k = 0; k < 2 && m; k++)
                if (r.chance(.5))
                    d[r.range(0, m - 1)] = r.chance(.5) ? 0 : r.range(0, 255);
            size_t n2 = r.chance(.5) ? n : r.range(0, n);
            std::unique_ptr<uint8_t[]> o2(new uint8_t[n2]);
            memset(o2.get(), 0, n2);
            DecompressVis(d.get(), d.get() + m, o2.get(), o2.get() + n2);
            auto want = refdecode(d.get(), d.get() + m, n2, full);
            EXPECT(!memcmp(o2.get(), want.data(), n2), "row-damaged", "{} of {} bytes into {}", m, c.size(), n2);
            vp::stat(full ? "damaged-full" : "damaged-short");
        }
    }
    // a whole map
    World w(r);
    auto &b = w.bsp;
    bool q2 = r.chance(.5);
    b.loadversion = ver(q2 ? (r.chance(.5) ? "q2bsp" : "qbism") : r.of({"bsp29", "bsp2", "hl"}));
    int ncl = r.of({0, 1, 7, 8, 9, 63, 64, 65, 300});
    if (r.chance(.5))
        ncl = r.range(1, 600);
    size_t rowb = (ncl + 7) / 8;
    std::vector<std::vector<uint8_t>> rows;
    std::vector<int> ofs;
    for (int i = 0; i < ncl; i++) {
        rows.push_back(rnd_row(r, rowb));
        if (!rows.back().empty() && (ncl & 7))
            rows.back().back() &= (1 << (ncl & 7)) - 1;
    }
    b.dmodels.resize(1);
    b.dmodels[0].visleafs = ncl;
    if (q2)
        b.dvis.resize(ncl);
    std::vector<int> order(ncl);
    for (int i = 0; i < ncl; i++)
        order[i] = i;
    for (int i = ncl - 1; i > 0; i--)
        std::swap(order[i], order[r.range(0, i)]);
    ofs.resize(ncl);
    for (int i : order) {
        ofs[i] = b.dvis.bits.size();
        if (q2)
            b.dvis.set_bit_offset(VIS_PVS, i, ofs[i]);
        CompressRow(rows[i].data(), rowb, std::back_inserter(b.dvis.bits));
        if (q2) {
            b.dvis.set_bit_offset(VIS_PHS, i, b.dvis.bits.size());
            auto phs = rnd_row(r, rowb);
            CompressRow(phs.data(), rowb, std::back_inserter(b.dvis.bits));
        }
    }
    b.dvis.bits.shrink_to_fit();
    EXPECT(DecompressedVisSize(&b) == rowb, "row-size", "{} clusters: {} bytes", ncl, DecompressedVisSize(&b));
    // leafs: leaf 0 solid; visleaf i = leaf i+1 in Quake; clusters shared in Quake II
    mleaf_t l{};
    l.visofs = l.cluster = -1;
    b.dleafs.push_back(l);
    int nl = q2 ? ncl + r.range(0, 20) : ncl;
    for (int i = 0; i < nl; i++) {
        l.cluster = q2 ? (i < ncl ? i : r.range(-1, ncl - 1)) : -1;
        l.visofs = q2 ? 0 : ofs[i];
        b.dleafs.push_back(l);
    }
    if (!q2 && ncl > 1 && r.chance(.5)) // func_detail: several leafs share one row
        for (int k = 0; k < 5; k++) {
            int a = r.range(0, ncl - 1), c = r.range(0, ncl - 1);
            b.dleafs[a + 1].visofs = b.dleafs[c + 1].visofs;
        }
    if (!q2 && r.chance(.5)) { // submodel leaf, and a leaf without / with damaged vis
        l.visofs = r.of({-1, (int)b.dvis.bits.size(), (int)b.dvis.bits.size() + 100});
        b.dleafs.push_back(l);
    }
    if (q2 && ncl && r.chance(.2))
        b.dvis.set_bit_offset(VIS_PVS, ncl - 1, b.dvis.bits.size() + r.range(0, 5));
    auto all = DecompressAllVis(&b);
    std::map<int, std::vector<uint8_t>> want;
    if (q2) {
        for (int i = 0; i < ncl; i++)
            if (b.dvis.get_bit_offset(VIS_PVS, i) < (int)b.dvis.bits.size())
                want[i] = rows[i];
    } else
        for (int i = 0; i < ncl; i++)
            if (std::any_of(b.dleafs.begin(), b.dleafs.end(), [&](auto &x) { return x.visofs == ofs[i]; }))
                want[ofs[i]] = rows[i];
    if (rowb) {
        EXPECT(all.size() == want.size(), "all-rows", "{} rows instead of {}", all.size(), want.size());
        for (auto &k : want) {
            auto it = all.find(k.first);
            EXPECT(it != all.end() && it->second == k.second, "all-rows", "{} row {} of {}", q2 ? "cluster" : "offset", k.first, ncl);
        }
    }
    for (int q = 0; q < 60 && ncl; q++) {
        int a = r.range(0, ncl - 1);
        if (!all.count(q2 ? a : ofs[a]))
            continue;
        auto &pvs = all[q2 ? a : ofs[a]];
        auto &lf = r.pick(b.dleafs);
        int ln = &lf - b.dleafs.data();
        int bit = q2 ? lf.cluster : ln - 1;
        bool wantv = bit >= 0 && bit < ncl && (rows[a][bit >> 3] >> (bit & 7) & 1);
        if (q2 && bit == ncl - 1 && b.dvis.get_bit_offset(VIS_PVS, bit) >= (int)b.dvis.bits.size())
            wantv = false;
        EXPECT(Pvs_LeafVisible(&b, pvs, &lf) == wantv, "leaf-visible", "leaf {} from {} of {}", ln, a, ncl);
        vp::stat(wantv ? "visible" : "hidden");
    }
    for (int i = -1; i < 10; i++)
        EXPECT(LeafnumToVisleaf(VisleafToLeafnum(i)) == i && VisleafToLeafnum(i) == i + 1, "visleaf", "{}", i);
    vp::mark(fmt::format("map {} {} {}", q2, ncl & 7, (int)std::log2(ncl + 1)));
}

// ---------------------------------------------------------------- lightmap coordinates
static void q_lm(rng &r)
{
    World w(r);
    auto &b = w.bsp;
    bool q2 = r.chance(.4);
    b.loadversion = ver(q2 ? "q2bsp" : r.chance(.5) ? "bsp29" : "hl");
    // face
    bool grid = r.chance(.5);
    Poly p = rnd_poly(r, 12, 400, 2000);
    dplane_t pl{};
    int side = r.range(0, 1);
    std::vector<V> pts = p.pts;
    V n = p.normal;
    if (grid) { // axis-aligned box face on integer coordinates
        int ax = r.range(0, 2), u = (ax + 1) % 3, v = (ax + 2) % 3;
        n = V{};
        n[ax] = r.chance(.5) ? 1 : -1;
        L k = r.of({1, 8, 16, 16, 32}), x0 = r.range(-40, 40) * k, y0 = r.range(-40, 40) * k, x1 = x0 + r.range(1, 12) * k, y1 = y0 + r.range(1, 12) * k;
        L z = r.range(-500, 500);
        pts.clear();
        for (int i = 0; i < 4; i++) {
            V q{};
            q[ax] = z;
            q[u] = i == 1 || i == 2 ? x1 : x0;
            q[v] = i >= 2 ? y1 : y0;
            pts.push_back(q);
        }
        if (dot(cross(pts[0] - pts[1], pts[2] - pts[1]), n) < 0)
            std::reverse(pts.begin(), pts.end());
    }
    V pn = side ? n * -1 : n;
    pl.normal = fromV<float>(pn);
    pl.dist = (float)dot(pn, pts[0]);
    pl.type = 3;
    b.dplanes.push_back(pl);
    mtexinfo_t t{};
    V s, tt;
    basis(n, s, tt);
    L rot = grid && r.chance(.7) ? 0 : r.real(0, 6.28);
    V s2 = s * cosl(rot) + tt * sinl(rot), t2 = tt * cosl(rot) - s * sinl(rot);
    L sc[2] = {grid ? r.of({1., 2., .5, .25}) : r.real(.1, 4), grid ? 1 : r.real(.1, 4)};
    if (r.chance(.3)) // shear / out of plane component, as Quake alignments have on slopes
        s2 = s2 + n * r.real(-.8, .8) + t2 * r.real(-.5, .5);
    for (int k = 0; k < 3; k++) {
        t.vecs.at(0, k) = (float)(s2[k] * sc[0]);
        t.vecs.at(1, k) = (float)(t2[k] * sc[1] * (r.chance(.5) && k < 0 ? -1 : 1));
    }
    t.vecs.at(0, 3) = grid ? (float)r.range(-64, 64) : (float)r.real(-500, 500);
    t.vecs.at(1, 3) = grid ? (float)r.range(-64, 64) : (float)r.real(-500, 500);
    b.texinfo.push_back(t);
    w.addface(0, side, pts, 0);
    // move the face away from index 0 sometimes
    auto &f = b.dfaces[0];
    float shift = r.of({16.f, 16.f, 8.f, 4.f, 2.f, 1.f, 32.f, 64.f, 0.5f});
    auto ldtex = [&](V x, int k) {
        return (L)t.vecs.at(k, 0) * x[0] + (L)t.vecs.at(k, 1) * x[1] + (L)t.vecs.at(k, 2) * x[2] + (L)t.vecs.at(k, 3);
    };
    std::vector<V> fp;
    for (auto &q : Face_Points(&b, &f))
        fp.push_back(toV(q));
    L mag = 0;
    for (auto &q : fp)
        mag = std::max(mag, len(q));
    L tmag = mag * 6 + 600;
    // texture coordinates
    for (auto &q : fp) {
        auto uv = WorldToTexCoord(fromV<double>(q), &t);
        auto uv2 = Face_WorldToTexCoord(&b, &f, fromV<float>(q));
        for (int k = 0; k < 2; k++)
            EXPECT(fabsl(uv[k] - ldtex(q, k)) <= 1e-6L && fabsl(uv2[k] - ldtex(q, k)) <= 1e-6L + 6e-8L * fabsl(ldtex(q, k)), "texcoord", "{} vs {}", uv[k],
                (double)ldtex(q, k));
    }
    auto common = [&](const faceextents_t &e, const char *key) {
        qvec3f lo(1e9f), hi(-1e9f);
        for (auto &q : Face_Points(&b, &f))
            for (int k = 0; k < 3; k++) {
                lo[k] = std::min(lo[k], q[k]);
                hi[k] = std::max(hi[k], q[k]);
            }
        EXPECT(e.bounds.mins() == lo && e.bounds.maxs() == hi, key, "bounds");
        for (auto &q : fp)
            EXPECT(len(q - toV(e.origin)) <= e.radius * 1.0001L + 1e-2L, key, "vertex outside the bounding sphere");
        V half = (toV(hi) - toV(lo)) * 0.5L;
        EXPECT(fabsl(e.radius - len(half)) <= 1e-2L && near(toV(e.origin), (toV(hi) + toV(lo)) * 0.5L, 1e-2L), key, "sphere");
        EXPECT(e.width() == e.lm_extents[0] + 1 && e.height() == e.lm_extents[1] + 1 && e.numsamples() == e.width() * e.height() &&
                   e.lmsize()[0] == e.width() && e.lmsize()[1] == e.height(),
            key, "size");
        // world <-> texture, world <-> luxel
        for (int q = 0; q < 6; q++) {
            V x = fp[r.range(0, fp.size() - 1)] * .5L + fp[r.range(0, fp.size() - 1)] * .5L;
            x = x - unit(n) * (dot(n, x) - dot(n, fp[0]));
            auto uv = e.worldToTexCoord(fromV<float>(x));
            for (int k = 0; k < 2; k++)
                EXPECT(fabsl(uv[k] - ldtex(x, k)) <= 4e-6L * tmag, key, "texture coordinate {} vs {}", uv[k], (double)ldtex(x, k));
            auto back = e.texCoordToWorld(uv);
            EXPECT(near(toV(back), x, 0.1L + 2e-5L * mag), key, "texture -> world {} vs {}", str(toV(back)), str(x));
            auto lm = e.worldToLMCoord(fromV<float>(x));
            auto wb = e.LMCoordToWorld(lm);
            EXPECT(near(toV(wb), x, 0.1L + 2e-5L * mag), key, "luxel -> world {} vs {} (luxel {} {})", str(toV(wb)), str(x), lm[0], lm[1]);
        }
    };
    { // conventional lightmap
        faceextents_t e(f, b, shift);
        common(e, "extents");
        int mins[2];
        for (int k = 0; k < 2; k++) {
            L lo = 1e30L, hi = -1e30L;
            for (auto &q : fp) {
                L v = (float)ldtex(q, k);
                lo = std::min(lo, v);
                hi = std::max(hi, v);
            }
            lo /= shift;
            hi /= shift;
            auto unsure = [](L v) { return v != floorl(v) && fabsl(v - roundl(v)) < 1e-5L * (1 + fabsl(v) / 100); };
            mins[k] = (int)floorl(lo);
            int ext = (int)(ceill(hi) - floorl(lo));
            if (!unsure(lo) && !unsure(hi)) {
                EXPECT(e.lm_extents[k] == ext, "extents", "axis {}: {} instead of {} ({}..{})", k, e.lm_extents[k], ext, (double)lo, (double)hi);
                for (auto &q : fp) {
                    auto lm = e.worldToLMCoord(fromV<float>(q));
                    L want = ldtex(q, k) / shift - mins[k];
                    EXPECT(fabsl(lm[k] - want) <= 2e-5L * tmag / std::min(shift, 1.f), "extents", "luxel {} vs {}", lm[k], (double)want);
                    L sl = 2e-5L * tmag / std::min(shift, 1.f);
                    EXPECT(lm[k] >= -sl && lm[k] <= e.lm_extents[k] + sl, "extents", "vertex outside its lightmap: {} of {}", lm[k], e.lm_extents[k]);
                }
                vp::mark(fmt::format("ext {} {} {}", grid, (int)std::log2(ext + 1), shift));
            } else
                vp::stat("extents-unsure");
        }
    }
    { // by world units per luxel
        float wu = r.of({1.f, 4.f, 16.f, 16.f, 32.f, 3.f});
        faceextents_t e(f, b, world_units_per_luxel_t{}, wu);
        common(e, "wupl");
        for (int k = 0; k < 2; k++) {
            L lo = 1e30L, hi = -1e30L;
            for (auto &q : fp) {
                auto lm = e.worldToLMCoord(fromV<float>(q));
                lo = std::min(lo, (L)lm[k]);
                hi = std::max(hi, (L)lm[k]);
            }
            L sl = 1e-5L * mag + 2e-3L;
            EXPECT(lo >= -sl && lo <= 1 + sl && hi <= e.lm_extents[k] + sl && hi >= e.lm_extents[k] - 1 - sl, "wupl", "axis {}: luxels {}..{} of {}", k,
                (double)lo, (double)hi, e.lm_extents[k]);
        }
        // the two world axes seen by the projection have exactly wu units per luxel
        int ax = 0;
        for (int k = 1; k < 3; k++)
            if (fabsf(f.side ? -pl.normal[k] : pl.normal[k]) > fabsf(pl.normal[ax]))
                ax = k;
        qvec3f o{};
        auto l0 = e.worldToLMCoord(o);
        for (int k = 0; k < 3; k++) {
            if (k == ax)
                continue;
            qvec3f d{};
            d[k] = 64;
            auto l1 = e.worldToLMCoord(d);
            L dl = hypotl(l1[0] - l0[0], l1[1] - l0[1]);
            EXPECT(fabsl(dl - 64.0L / wu) <= 1e-3L + 1e-6L * mag, "wupl", "64 units are {} luxels", (double)dl);
        }
    }
    { // decoupled, through the BSPX lump
        int nf = r.range(1, 4), me = r.range(0, nf - 1);
        std::ostringstream o;
        o << endianness<std::endian::little>;
        std::vector<bspx_decoupled_lm_perface> recs;
        for (int i = 0; i < nf; i++) {
            bspx_decoupled_lm_perface d{};
            d.lmwidth = r.range(1, 300);
            d.lmheight = r.range(1, 300);
            d.offset = r.range(-1, 1 << 30);
            L k = r.real(.02, 1);
            for (int a = 0; a < 3; a++) {
                d.world_to_lm_space.at(0, a) = (float)(s2[a] * k);
                d.world_to_lm_space.at(1, a) = (float)(t2[a] * k);
            }
            d.world_to_lm_space.at(0, 3) = (float)r.real(-100, 100);
            d.world_to_lm_space.at(1, 3) = (float)r.real(-100, 100);
            recs.push_back(d);
            o <= d;
        }
        std::string str_ = o.str();
        bspxentries_t ents;
        ents["DECOUPLED_LM"] = std::vector<uint8_t>(str_.begin(), str_.end());
        auto d = BSPX_DecoupledLM(ents, me);
        auto &x = recs[me];
        bool same_ = d.lmwidth == x.lmwidth && d.lmheight == x.lmheight && d.offset == x.offset;
        for (int a = 0; a < 2; a++)
            for (int c = 0; c < 4; c++)
                same_ &= d.world_to_lm_space.at(a, c) == x.world_to_lm_space.at(a, c);
        EXPECT(same_, "decoupled-record", "face {} of {}", me, nf);
        faceextents_t e(f, b, d.lmwidth, d.lmheight, d.world_to_lm_space);
        EXPECT(e.width() == x.lmwidth && e.height() == x.lmheight, "decoupled", "{}x{} instead of {}x{}", e.width(), e.height(), x.lmwidth, x.lmheight);
        common(e, "decoupled");
        for (auto &q : fp) {
            auto lm = e.worldToLMCoord(fromV<float>(q));
            for (int k = 0; k < 2; k++) {
                L want = 0;
                for (int c = 0; c < 3; c++)
                    want += (L)x.world_to_lm_space.at(k, c) * q[c];
                want += x.world_to_lm_space.at(k, 3);
                EXPECT(fabsl(lm[k] - want) <= 4e-6L * tmag, "decoupled", "luxel {} vs {}", lm[k], (double)want);
            }
        }
    }
    { // face normals lump
        std::ostringstream o;
        o << endianness<std::endian::little>;
        bspxfacenormals fn;
        int k = r.range(1, 9);
        for (int i = 0; i < k; i++)
            fn.normals.push_back(fromV<float>(rnd_dir(r)));
        fn.per_face.resize(1);
        for (int i = 0; i < f.numedges; i++)
            fn.per_face[0].per_vert.push_back({(uint32_t)r.range(0, k - 1), (uint32_t)r.range(0, k - 1), (uint32_t)r.range(0, k - 1)});
        o <= fn;
        std::string s_ = o.str();
        bspxentries_t ents;
        EXPECT(!BSPX_FaceNormals(b, ents), "facenormals", "absent lump");
        ents["FACENORMALS"] = std::vector<uint8_t>(s_.begin(), s_.end());
        auto g = BSPX_FaceNormals(b, ents);
        bool ok = g && g->normals == fn.normals && g->per_face.size() == 1 && g->per_face[0].per_vert.size() == (size_t)f.numedges;
        for (int i = 0; ok && i < f.numedges; i++) {
            auto &a = g->per_face[0].per_vert[i], &c = fn.per_face[0].per_vert[i];
            ok = a.normal == c.normal && a.tangent == c.tangent && a.bitangent == c.bitangent;
        }
        EXPECT(ok, "facenormals", "record");
    }
    { // samples
        faceextents_t e;
        e.lm_extents = {(int)r.range(0, 20), (int)r.range(0, 20)};
        int nsmp = e.numsamples();
        int base = r.range(0, 50);
        std::vector<uint8_t> lit((base + nsmp) * 3);
        b.dlightdata.resize(q2 || !strcmp(b.loadversion->short_name, "hl") ? base + nsmp * 3 : base + nsmp);
        b.dlightdata.shrink_to_fit();
        for (auto &c : lit)
            c = r.range(0, 255);
        for (auto &c : b.dlightdata)
            c = r.range(0, 255);
        for (int q = 0; q < 10; q++) {
            qvec2i c{(int)r.range(0, e.width() - 1), (int)r.range(0, e.height() - 1)};
            int px = c[1] * e.width() + c[0];
            auto g = LM_Sample(&b, nullptr, e, base, c);
            auto h = LM_Sample(&b, &lit, e, base, c);
            bool rgb = strcmp(b.loadversion->short_name, "bsp29");
            for (int k = 0; k < 3; k++) {
                EXPECT(g[k] == (rgb ? b.dlightdata[base + px * 3 + k] : b.dlightdata[base + px]), "sample", "pixel {} channel {}", px, k);
                EXPECT(h[k] == lit[(base + px) * 3 + k], "sample", "lit pixel {} channel {}", px, k);
            }
            EXPECT(LM_Sample(&b, nullptr, e, -1, c) == qvec3b(0, 0, 0), "sample", "unlit face");
        }
        // .lit file
        char name[64];
        snprintf(name, sizeof name, "lit%d.lit", (int)getpid());
        int vers = r.chance(.8) ? 1 : r.range(0, 3);
        bool okid = r.chance(.9);
        {
            std::ofstream lf(name, std::ios::binary);
            lf << (okid ? "QLIT" : "QLIX");
            lf.write((char *)&vers, 4);
            lf.write((char *)lit.data(), lit.size());
        }
        bool threw = false;
        std::vector<uint8_t> got;
        try {
            got = LoadLitFile(name);
        } catch (const std::exception &) {
            threw = true;
        }
        EXPECT(threw == !(okid && vers == 1), "lit-file", "id {} version {}: refused {}", okid, vers, threw);
        if (!threw)
            EXPECT(got == lit, "lit-file", "{} bytes instead of {}", got.size(), lit.size());
        remove(name);
    }
}
#include <unistd.h>
int main(int argc, char **argv)
{
    return vp::drive(argc, argv, {{"query", q_query}, {"vis", q_vis}, {"lm", q_lm}});
}
