// vis' stack-allocated clipper against the same reference semantics as the general one.
#include "vph.hh"
#include <vis/vis.hh>
using vp::rng;
using L = long double;
static void clip_case(rng &r)
{
    // convex polygon on a random plane
    qvec3d n;
    int kind = r.range(0, 2);
    if (kind == 0) {
        n = qvec3d(0, 0, 0);
        n[r.range(0, 2)] = r.chance(.5) ? 1 : -1;
    } else
        do
            n = qv::normalize(qvec3d(r.real(-1, 1), r.real(-1, 1), r.real(-1, 1)));
        while (qv::length(n) < .5);
    qvec3d a = qv::normalize(qv::cross(n, std::fabs(n[0]) < .6 ? qvec3d(1, 0, 0) : qvec3d(0, 1, 0))), b = qv::cross(n, a);
    double R = r.real(8, 1500), base = r.real(0, 6);
    qvec3d c(r.real(-3000, 3000), r.real(-3000, 3000), r.real(-3000, 3000));
    // up to 40 points: windings longer than the 24-point stack buffer live on the heap and must survive an aborted clip
    int np = r.chance(.25) ? r.range(20, 40) : r.range(3, 12);
    std::vector<qvec3d> pts;
    for (int i = 0; i < np; i++) {
        double t = base - 2 * M_PI * (i + .6 * r.unit()) / np;
        pts.push_back(c + a * (cos(t) * R) + b * (sin(t) * R * .7));
    }
    struct W
    {
        std::vector<qvec3d> p;
        size_t size() const { return p.size(); }
        const qvec3d &operator[](size_t i) const { return p[i]; }
    } src{pts};
    auto heap = viswinding_t::copy_polylib_winding(src);
    {
        double rad = 0;
        qvec3d o{};
        for (auto &p : pts)
            o += p;
        o = o * (1.0 / np);
        for (auto &p : pts)
            rad = std::max(rad, qv::length(p - o));
        EXPECT(qv::length(o - heap->origin) < 1e-6 && fabs(rad - heap->radius) < 1e-6, "sphere", "origin/radius wrong");
    }
    auto stack = std::make_unique<pstack_t>();
    memset((void *)stack.get(), 0, sizeof(pstack_t));
    visstats_t stats;
    viswinding_t *cur = heap.get();
    std::vector<qvec3d> ref = pts;
    int clips = r.range(1, 6);
    for (int k = 0; k < clips; k++) {
        qvec3d pn = r.chance(.3) ? qvec3d(r.chance(.5) ? 1 : -1, 0, 0) : qv::normalize(qvec3d(r.real(-1, 1), r.real(-1, 1), r.real(-1, 1)));
        if (r.chance(.1))
            pn = n;
        double d = qv::dot(pn, r.chance(.3) ? ref[r.range(0, ref.size() - 1)] : c) + (r.chance(.2) ? 0 : r.real(-.8, .8) * R * (r.chance(.2) ? 0.001 : 1));
        qplane3d split(pn, d);
        auto desc = [&] { return fmt::format("np={} clip {} of {} n=({}) d={} R={}", np, k, clips, split.normal, split.dist, R); };
        std::vector<L> ds;
        int cnt[3] = {};
        bool amb = false;
        for (auto &p : ref) {
            L x = (L)p[0] * split.normal[0] + (L)p[1] * split.normal[1] + (L)p[2] * split.normal[2] - d;
            ds.push_back(x);
            amb |= fabsl(fabsl(x) - VIS_ON_EPSILON) < 1e-8L;
            cnt[x > VIS_ON_EPSILON ? 0 : x < -VIS_ON_EPSILON ? 1 : 2]++;
        }
        L od = (L)cur->origin[0] * split.normal[0] + (L)cur->origin[1] * split.normal[1] + (L)cur->origin[2] * split.normal[2] - d;
        if (amb || fabsl(fabsl(od) - cur->radius) < 1e-8L) {
            vp::stat("skipped_ambiguous");
            return;
        }
        qvec3d oorg = cur->origin;
        double orad = cur->radius;
        auto *was = cur;
        int64_t nc = stats.c_noclip;
        cur = ClipStackWinding(stats, cur, *stack, split);
        auto held = [&] {
            int u = 0;
            for (int i = 0; i < (int)STACK_WINDINGS; i++)
                u += stack->windings_used[i];
            return u;
        };
        bool coplanar = cnt[2] == (int)ref.size();
        // by the sphere: a winding wholly behind its own bounding-sphere test is dropped, wholly in front kept
        bool gone = od < -orad || (!(od > orad) && !coplanar && !cnt[0]);
        bool whole = !gone && (od > orad || coplanar || !cnt[1]);
        vp::mark(fmt::format("f{}b{}o{}n{}", std::min(cnt[0], 4), std::min(cnt[1], 4), std::min(cnt[2], 3), ref.size() > 24));
        if (gone) {
            EXPECT(!cur, "clip-gone", "expected nothing left: {}", desc());
            EXPECT(held() == 0, "clip-leak", "{} stack windings still held after a full clip: {}", held(), desc());
            return;
        }
        if (!EXPECT(cur != nullptr, "clip-lost", "winding vanished (front {} back {} on {}): {}", cnt[0], cnt[1], cnt[2], desc()))
            return;
        std::vector<qvec3d> want;
        size_t m = ref.size();
        if (whole)
            want = ref;
        else {
            auto side = [&](size_t i) { return ds[i] > VIS_ON_EPSILON ? 0 : ds[i] < -VIS_ON_EPSILON ? 1 : 2; };
            for (size_t i = 0; i < m; i++) {
                size_t j = (i + 1) % m;
                if (side(i) != 1)
                    want.push_back(ref[i]);
                if (side(i) + side(j) == 1)
                    want.push_back(ref[i] + (ref[j] - ref[i]) * (double)(ds[i] / (ds[i] - ds[j])));
            }
            if (want.size() > MAX_WINDING_FIXED) {
                EXPECT(stats.c_noclip == nc + 1 && cur == was, "clip-overflow", "a result of {} points must abort the clip: {}", want.size(), desc());
                want = ref;
            } else
                EXPECT(stats.c_noclip == nc && cur != heap.get(), "clip-target", "split result written over the input: {}", desc());
        }
        bool ok = cur->size() == want.size();
        for (size_t i = 0; ok && i < want.size(); i++)
            ok = qv::length((*cur)[i] - want[i]) < 1e-3;
        EXPECT(ok, "clip-shape", "{} points, want {}: {}", cur->size(), want.size(), desc());
        EXPECT(cur->origin == oorg && cur->radius == orad, "clip-sphere", "bounding sphere changed: {}", desc());
        EXPECT(held() == (cur == heap.get() ? 0 : 1), "clip-leak", "{} stack windings held: {}", held(), desc());
        bool same = heap->size() == pts.size();
        for (size_t i = 0; same && i < pts.size(); i++)
            same = (*heap)[i] == pts[i];
        EXPECT(same, "clip-input", "the portal's own winding was modified: {}", desc());
        if (!ok)
            return;
        ref.clear();
        for (size_t i = 0; i < cur->size(); i++)
            ref.push_back((*cur)[i]);
        vp::stat(whole ? "unsplit" : "split");
    }
}
int main(int argc, char **argv)
{
    return vp::drive(argc, argv, {{"clip", clip_case}});
}
