#include "geomref.hh"

// ---------------------------------------------------------------- vectors, matrices, boxes, mathlib
template<class T> static void vec_case(rng &r)
{
    constexpr bool flt = sizeof(T) == 4;
    L u = flt ? 3e-7L : 5e-16L;
    auto rv = [&] {
        qvec<T, 3> v;
        double m = r.of<double>({1, 100, 4096});
        for (int i = 0; i < 3; i++)
            v[i] = r.chance(.2) ? (T)r.range(-8, 8) : (T)r.real(-m, m);
        return v;
    };
    auto a = rv(), b = rv(), c = rv();
    V A = toV(a), B = toV(b), C = toV(c);
    L s = len(A) + 1, t = len(B) + 1;
    auto desc = [&] { return fmt::format("{} a={} b={} c={}", flt ? "float" : "double", str(A), str(B), str(C)); };
    T k = (T)r.real(-50, 50);
    for (int i = 0; i < 3; i++) {
        EXPECT((a + b)[i] == (T)(a[i] + b[i]) && (a - b)[i] == (T)(a[i] - b[i]), "vec-add", "{}", desc());
        EXPECT((a * k)[i] == (T)(a[i] * k) && (a * b)[i] == (T)(a[i] * b[i]) && (-a)[i] == -a[i], "vec-mul", "{}", desc());
        if (k != 0)
            EXPECT((a / k)[i] == (T)(a[i] / k), "vec-div", "{}", desc());
        if (b[i] != 0)
            EXPECT((a / b)[i] == (T)(a[i] / b[i]), "vec-div", "{}", desc());
        auto x = a;
        x += b;
        auto y = a;
        y -= b;
        auto z = a;
        z *= k;
        auto zz = a;
        zz *= b;
        EXPECT(x == a + b && y == a - b && z == a * k && zz == a * b, "vec-assign", "{}", desc());
        if (k != 0) {
            auto q = a;
            q /= k;
            EXPECT(q == a / k, "vec-assign", "/= scalar {}", desc());
        }
        if (b[0] != 0 && b[1] != 0 && b[2] != 0) {
            auto q = a;
            q /= b;
            EXPECT(q == a / b, "vec-assign", "/= vector gives {} want {}: {}", str(toV(q)), str(toV(a / b)), desc());
        }
        EXPECT(qv::min(a, b)[i] == std::min(a[i], b[i]) && qv::max(a, b)[i] == std::max(a[i], b[i]) && qv::abs(a)[i] == std::fabs(a[i]), "vec-minmax", "{}", desc());
        EXPECT(qv::floor(a)[i] == std::floor(a[i]) && qv::ceil(a)[i] == std::ceil(a[i]), "vec-floor", "{}", desc());
    }
    EXPECT(qv::max(a) == std::max({a[0], a[1], a[2]}), "vec-minmax", "max component {}", desc());
    EXPECT(fabsl((L)qv::dot(a, b) - dot(A, B)) <= 8 * u * s * t, "vec-dot", "{}: {}", (double)qv::dot(a, b), desc());
    EXPECT(near(toV(qv::cross(a, b)), cross(A, B), 8 * u * s * t), "vec-cross", "{}", desc());
    EXPECT(fabsl(qv::length(a) - len(A)) <= 8 * u * s && fabsl(qv::length2(a) - dot(A, A)) <= 8 * u * s * s, "vec-length", "{}", desc());
    EXPECT(fabsl(qv::distance(a, b) - len(B - A)) <= 8 * u * (s + t) && fabsl(qv::distance2(a, b) - dot(B - A, B - A)) <= 16 * u * (s + t) * (s + t), "vec-distance", "{}", desc());
    if (len(A) > 1e-3L) {
        EXPECT(near(toV(qv::normalize(a)), unit(A), 8 * u), "vec-normalize", "{}", desc());
        T l;
        EXPECT(near(toV(qv::normalize(a, l)), unit(A), 8 * u) && fabsl(l - len(A)) <= 8 * u * s, "vec-normalize", "len out {}", desc());
        auto x = a;
        T l2 = qv::normalizeInPlace(x);
        EXPECT(near(toV(x), unit(A), 8 * u) && l2 == l, "vec-normalize", "in place {}", desc());
        qvec<T, 3> d;
        double gl = GetDir(b, b + a, d);
        EXPECT(fabsl(gl - len(toV(b + a) - B)) <= 64 * u * (s + t) , "vec-getdir", "{}", desc());
    }
    qvec<T, 3> zero{};
    EXPECT(qv::normalize(zero) == zero && qv::normalizeInPlace(zero) == 0, "vec-normalize", "zero vector");
    // ordering is lexicographic and total
    auto cmp = [](auto &p, auto &q) { return std::lexicographical_compare(p.begin(), p.end(), q.begin(), q.end()); };
    auto b2 = b;
    if (r.chance(.5))
        b2[0] = a[0];
    if (r.chance(.3))
        b2[1] = a[1];
    if (r.chance(.2))
        b2 = a;
    EXPECT((a < b2) == cmp(a, b2) && (a > b2) == cmp(b2, a) && (a <= b2) == !cmp(b2, a) && (a >= b2) == !cmp(a, b2) && (a == b2) == (!cmp(a, b2) && !cmp(b2, a)) &&
               (a != b2) == !(a == b2), "vec-order", "{}", desc());
    T e = (T)r.of<double>({0.1, 0.01, 1});
    auto near1 = a;
    near1[r.range(0, 2)] += e * (T)r.of<double>({0.5, -0.5, 2, -2});
    bool want = true;
    for (int i = 0; i < 3; i++)
        want = want && fabs(near1[i] - a[i]) <= e;
    EXPECT(qv::epsilonEqual(a, near1, e) == want && qv::epsilonEqual(near1, a, e) == want, "vec-epsilon", "{}", desc());
    EXPECT(qv::epsilonEmpty(near1 - a, e) == want || fabs((double)e) < 0.02, "vec-epsilon", "empty {}", desc());
    size_t big = 0;
    for (int i = 1; i < 3; i++)
        if (std::fabs(a[i]) > std::fabs(a[big]))
            big = i;
    EXPECT(qv::indexOfLargestMagnitudeComponent(a) == big, "vec-axis", "{}", desc());
    // conversions
    qvec<double, 3> ad(a);
    qvec<T, 2> a2(a);
    qvec<T, 4> a4(a), ak(a, k);
    EXPECT(ad[0] == a[0] && ad[2] == a[2] && a2[0] == a[0] && a2[1] == a[1] && a4[3] == 0 && a4[2] == a[2] && a4.xyz() == a && ak[3] == k, "vec-convert", "{}", desc());
    // tangents
    if (len(A) > .01L) {
        auto nn = qv::normalize(a);
        auto [tg, bt] = qv::MakeTangentAndBitangentUnnormalized(nn);
        V x = cross(toV(tg), toV(bt));
        EXPECT(fabsl(dot(toV(tg), toV(nn))) < 1e-5L && fabsl(dot(toV(bt), toV(nn))) < 1e-5L && dot(x, toV(nn)) > 0.01L && near(unit(x), toV(nn), 1e-4L), "vec-tangent", "{}", desc());
        // mangle round trip (T float: acosf loses ~1e-3 near the pole)
        auto mg = qv::mangle_from_vec(nn);
        auto back = qv::vec_from_mangle(mg);
        EXPECT(near(toV(back), toV(nn), 2e-3L), "mangle", "{} -> {} -> {}", str(toV(nn)), str(toV(mg)), str(toV(back)));
    }
    // triangle functions
    V n = cross(B - A, C - A);
    if (len(n) > 10 && !flt) {
        EXPECT(fabsl(qv::TriangleArea(a, b, c) - len(n) / 2) <= 1e-9L * (1 + len(n) + s * t), "tri-area", "{}", desc());
        L x = r.unit(), y = r.unit();
        V q = A + (B - A) * x + (C - A) * y;
        auto bc = qv::Barycentric_FromPoint(fromV<T>(q), a, b, c);
        L cond = (dot(B - A, B - A) + dot(C - A, C - A)) / len(n);
        if (cond < 50)
            EXPECT(near(toV(bc), V{{1 - x - y, x, y}}, 1e-7L * cond * cond), "barycentric", "got {} want {} {} {}", str(toV(bc)), (double)(1 - x - y), (double)x, (double)y);
        auto rt = qv::Barycentric_ToPoint(bc, a, b, c);
        if (cond < 50)
            EXPECT(near(toV(rt), q, 1e-4L), "barycentric", "to point {}", desc());
        auto rb = qv::Barycentric_Random((T)r.unit(), (T)r.unit());
        EXPECT(rb[0] >= -1e-9 && rb[1] >= -1e-9 && rb[2] >= -1e-9 && fabs(rb[0] + rb[1] + rb[2] - 1) < 1e-9, "barycentric", "random {}", str(toV(rb)));
    }
    // planes
    qplane3<T> pl(qv::normalize(len(A) > .01L ? a : qvec<T, 3>(0, 0, 1)), (T)r.real(-500, 500));
    EXPECT(fabsl(pl.distance_to(b) - (dot(toV(pl.normal), B) - pl.dist)) <= 16 * u * (t + 500), "plane-dist", "{}", desc());
    EXPECT(pl.distance_to(b) == -(-pl).distance_to(b), "plane-neg", "{}", desc());
    EXPECT(qv::epsilonEqual(pl, pl) && !qv::epsilonEqual(pl, -pl) && pl == pl && (pl < -pl) != (-pl < pl), "plane-cmp", "{}", desc());
    {
        auto q = pl;
        q.dist += (T)0.01;
        EXPECT(!qv::epsilonEqual(pl, q), "plane-cmp", "distance ignored {}", desc());
        q = pl;
        q.normal[1] += (T)0.001;
        EXPECT(!qv::epsilonEqual(pl, q), "plane-cmp", "normal ignored {}", desc());
        EXPECT(pl.vec4()[3] == pl.dist && pl.vec4()[1] == pl.normal[1], "plane-vec4", "{}", desc());
    }
    vp::mark(fmt::format("vec{}s{}", flt, (int)log2l(s)));
}

static void mat_case(rng &r)
{
    qmat4x4d m;
    for (int i = 0; i < 4; i++)
        for (int j = 0; j < 4; j++)
            m.at(i, j) = r.chance(.3) ? (double)r.range(-3, 3) : r.real(-3, 3);
    bool sing = r.chance(.15);
    if (sing) {
        for (int i = 0; i < 4; i++)
            for (int j = 0; j < 4; j++)
                m.at(i, j) = (double)r.range(-3, 3);
        for (int j = 0; j < 4; j++)
            m.at(3, j) = m.at(1, j);
    }
    auto inv = qv::inverse(m);
    L det = 0; // Leibniz expansion
    {
        int pm[4] = {0, 1, 2, 3};
        do {
            int sg = 1;
            for (int i = 0; i < 4; i++)
                for (int j = 0; j < i; j++)
                    if (pm[j] > pm[i])
                        sg = -sg;
            det += sg * (L)m.at(0, pm[0]) * m.at(1, pm[1]) * m.at(2, pm[2]) * m.at(3, pm[3]);
        } while (std::next_permutation(pm, pm + 4));
    }
    if (!sing && fabsl(det) < 1e-6L) {
        vp::stat("skipped_singular");
    } else if (sing) {
        EXPECT(std::isnan(inv.at(0, 0)) && std::isnan(inv.at(3, 3)), "mat-inverse", "singular matrix gave {}", inv.at(0, 0));
    } else {
        auto I = m * inv, J = inv * m;
        double big = 0;
        for (auto v : inv.m_values)
            big = std::max(big, fabs(v));
        if (big < 1e6)
            for (int i = 0; i < 4; i++)
                for (int j = 0; j < 4; j++)
                    EXPECT(fabs(I.at(i, j) - (i == j)) < 1e-9 * (1 + big * big) && fabs(J.at(i, j) - (i == j)) < 1e-9 * (1 + big * big), "mat-inverse", "A*inv(A) at {},{} = {}", i, j, I.at(i, j));
    }
    // product / vector product / transpose against the definition
    qmat<double, 3, 2> a;
    qmat<double, 2, 4> b;
    for (auto &v : a.m_values)
        v = r.range(-9, 9);
    for (auto &v : b.m_values)
        v = r.range(-9, 9);
    auto c = a * b;
    for (int i = 0; i < 3; i++)
        for (int j = 0; j < 4; j++)
            EXPECT(c.at(i, j) == a.at(i, 0) * b.at(0, j) + a.at(i, 1) * b.at(1, j), "mat-mul", "{} {}", i, j);
    qvec2d v(r.range(-9, 9), r.range(-9, 9));
    auto av = a * v;
    for (int i = 0; i < 3; i++)
        EXPECT(av[i] == a.at(i, 0) * v[0] + a.at(i, 1) * v[1] && a.transpose().at(0, i) == a.at(i, 0) && a.row(i)[1] == a.at(i, 1), "mat-vec", "{}", i);
    EXPECT(a.col(1)[2] == a.at(2, 1), "mat-col", "");
    auto a3 = a;
    a3.set_row(1, qvec2d(7, 8));
    a3.set_col(0, qvec3d(1, 2, 3));
    EXPECT(a3.at(1, 0) == 2 && a3.at(1, 1) == 8 && a3.at(2, 0) == 3 && a3.at(0, 1) == a.at(0, 1), "mat-set", "");
    auto rm = qmat<double, 2, 3>::row_major({1, 2, 3, 4, 5, 6});
    EXPECT(rm.at(0, 2) == 3 && rm.at(1, 0) == 4, "mat-rowmajor", "");
    qmat3x3f f;
    qmat2x2f g;
    for (auto &x : f.m_values)
        x = r.real(-3, 3);
    for (auto &x : g.m_values)
        x = r.real(-3, 3);
    auto fi = qv::inverse(f);
    auto I = f * fi;
    float big = 0;
    for (auto x : fi.m_values)
        big = std::max(big, fabsf(x));
    if (big < 50)
        for (int i = 0; i < 3; i++)
            for (int j = 0; j < 3; j++)
                EXPECT(fabs(I.at(i, j) - (i == j)) < 1e-4 * (1 + big), "mat-inverse3", "{} {} = {}", i, j, I.at(i, j));
    auto gi = qv::inverse(g);
    auto G = g * gi;
    big = 0;
    for (auto x : gi.m_values)
        big = std::max(big, fabsf(x));
    if (big < 50)
        for (int i = 0; i < 2; i++)
            for (int j = 0; j < 2; j++)
                EXPECT(fabs(G.at(i, j) - (i == j)) < 1e-4 * (1 + big), "mat-inverse2", "{} {} = {}", i, j, G.at(i, j));
    // rotations
    double th = r.real(-7, 7);
    auto rx = RotateAboutX(th) * qvec3d(0, 1, 0), ry = RotateAboutY(th) * qvec3d(0, 0, 1), rz = RotateAboutZ(th) * qvec3d(1, 0, 0);
    EXPECT(near(toV(rx), V{{0, cosl(th), sinl(th)}}, 1e-12L) && near(toV(ry), V{{sinl(th), 0, cosl(th)}}, 1e-12L) && near(toV(rz), V{{cosl(th), sinl(th), 0}}, 1e-12L), "rotate", "angle {}", th);
    V q = rnd_dir(r);
    auto rs = RotateFromUpToSurfaceNormal(fromV<float>(q)) * qvec3f(0, 0, 1);
    EXPECT(near(toV(rs), q, 1e-3L), "rotate-up", "{} gives {}", str(q), str(toV(rs)));
    vp::mark(fmt::format("mat{}{}", sing, r.range(0, 20)));
}

template<class T> static void box_case(rng &r)
{
    auto pt = [&] { return qvec<T, 3>((T)r.range(-6, 6), (T)r.range(-6, 6), (T)r.range(-6, 6)); };
    auto box = [&] {
        auto a = pt();
        auto b = a;
        for (int i = 0; i < 3; i++)
            b[i] += (T)r.range(0, 5);
        return aabb<T, 3>(a, b);
    };
    auto A = box(), B = box();
    auto P = pt();
    auto in = [](const aabb<T, 3> &b, const qvec<T, 3> &p) {
        for (int i = 0; i < 3; i++)
            if (p[i] < b[0][i] || p[i] > b[1][i])
                return false;
        return true;
    };
    auto desc = [&] { return fmt::format("A={} B={} P={}", fmt::format("{}", A), fmt::format("{}", B), fmt::format("{}", P)); };
    EXPECT(A.containsPoint(P) == in(A, P), "box-contains", "{}", desc());
    EXPECT(A.contains(B) == (in(A, B.mins()) && in(A, B.maxs())), "box-contains", "{}", desc());
    bool meet = true, overlap = true;
    for (int i = 0; i < 3; i++) {
        meet = meet && A[0][i] <= B[1][i] && B[0][i] <= A[1][i];
        overlap = overlap && A[0][i] < B[1][i] && B[0][i] < A[1][i];
    }
    EXPECT(A.disjoint(B, (T)0) == !meet && B.disjoint(A, (T)0) == !meet, "box-disjoint", "{}", desc());
    EXPECT(A.disjoint_or_touching(B, (T)0) == !overlap && B.disjoint_or_touching(A, (T)0) == !overlap, "box-touch", "{}", desc());
    {
        T e = r.of<T>({(T)0.5, (T)1, (T)1.5, (T)2, (T)-0.5});
        bool meetE = true, overE = true;
        for (int i = 0; i < 3; i++) {
            meetE = meetE && A[0][i] <= B[1][i] + e && B[0][i] - e <= A[1][i];
            overE = overE && A[0][i] < B[1][i] + e && B[0][i] - e < A[1][i];
        }
        EXPECT(A.disjoint(B, e) == !meetE && B.disjoint(A, e) == !meetE, "box-disjoint", "eps {} {}", e, desc());
        EXPECT(A.disjoint_or_touching(B, e) == !overE && B.disjoint_or_touching(A, e) == !overE, "box-touch", "eps {} {}", e, desc());
        auto d = A.mins() - B.mins();
        bool g = d[0] <= e && d[1] <= e && d[2] <= e;
        EXPECT(qv::gate(d, e) == g, "vec-gate", "{}", desc());
        EXPECT(qv::equalExact(A.mins(), B.mins()) == (d[0] == 0 && d[1] == 0 && d[2] == 0) && qv::emptyExact(d) == (d[0] == 0 && d[1] == 0 && d[2] == 0), "vec-exact", "{}", desc());
        qvec<T, 3> x((T)r.range(1, 5), (T)r.range(1, 5), (T)r.range(1, 5)), n((T)r.range(0, 3), (T)r.range(0, 3), (T)2), pw = qv::pow(x, n);
        for (int i = 0; i < 3; i++)
            EXPECT(fabs(pw[i] - std::pow((double)x[i], (double)n[i])) < 1e-3, "vec-pow", "{}", desc());
        qmat<T, 2, 3> m = qmat<T, 2, 3>::row_major({A[0][0], A[0][1], A[0][2], A[1][0], A[1][1], A[1][2]});
        auto mt = m.transpose();
        auto ms = m * (T)3;
        auto m2 = m;
        m2.set_row(1, P);
        for (int i = 0; i < 2; i++)
            for (int j = 0; j < 3; j++) {
                EXPECT(m.at(i, j) == A[i][j] && mt.at(j, i) == A[i][j] && ms.at(i, j) == A[i][j] * 3 && m.row(i)[j] == A[i][j] && m.col(j)[i] == A[i][j], "mat-access", "{} {}", i, j);
                EXPECT(m2.at(i, j) == (i ? P[j] : A[i][j]), "mat-set-row", "{} {}", i, j);
            }
        qmat<T, 3, 3> I, K((T)7);
        for (int i = 0; i < 3; i++)
            for (int j = 0; j < 3; j++)
                EXPECT(I.at(i, j) == (i == j ? 1 : 0) && K.at(i, j) == 7, "mat-init", "{} {}", i, j);
        EXPECT((m < m2) == (m.m_values < m2.m_values) && m == m && (m == m2) == (P == A[1]), "mat-compare", "{}", desc());
    }
    auto I = A.intersectWith(B);
    EXPECT(I.valid == meet && (bool)I == meet, "box-intersect", "{}", desc());
    auto U = A.unionWith(B);
    auto U2 = A + B;
    auto U3 = A;
    U3 += B;
    auto E = A + P;
    auto E2 = A;
    E2 += P;
    for (int i = 0; i < 3; i++) {
        if (I.valid)
            EXPECT(I.bbox[0][i] == std::max(A[0][i], B[0][i]) && I.bbox[1][i] == std::min(A[1][i], B[1][i]), "box-intersect", "{}", desc());
        EXPECT(U[0][i] == std::min(A[0][i], B[0][i]) && U[1][i] == std::max(A[1][i], B[1][i]), "box-union", "{}", desc());
        EXPECT(E[0][i] == std::min(A[0][i], P[i]) && E[1][i] == std::max(A[1][i], P[i]), "box-expand", "{}", desc());
        EXPECT(A.size()[i] == A[1][i] - A[0][i] && A.centroid()[i] == (T)((A[0][i] + A[1][i]) * 0.5) && A.translate(P)[0][i] == A[0][i] + P[i] && A.translate(P)[1][i] == A[1][i] + P[i], "box-misc", "{}", desc());
        EXPECT(A.grow(qvec<T, 3>((T)2))[0][i] == A[0][i] - 2 && A.grow(qvec<T, 3>((T)2))[1][i] == A[1][i] + 2, "box-grow", "{}", desc());
    }
    EXPECT(U == U2 && U == U3 && E == E2, "box-union", "in-place differs {}", desc());
    EXPECT(A.volume() == (A[1][0] - A[0][0]) * (A[1][1] - A[0][1]) * (A[1][2] - A[0][2]), "box-volume", "{}", desc());
    EXPECT(!(aabb<T, 3>().valid()) && A.valid(), "box-valid", "{}", desc());
    std::vector<qvec<T, 3>> ps;
    for (int i = r.range(1, 6); i > 0; i--)
        ps.push_back(pt());
    aabb<T, 3> acc;
    for (auto &p : ps)
        acc += p;
    aabb<T, 3> acc2(ps.begin(), ps.end());
    for (int i = 0; i < 3; i++) {
        T lo = ps[0][i], hi = ps[0][i];
        for (auto &p : ps)
            lo = std::min(lo, p[i]), hi = std::max(hi, p[i]);
        EXPECT(acc[0][i] == lo && acc[1][i] == hi, "box-points", "{}", desc());
    }
    EXPECT(acc == acc2, "box-points", "{}", desc());
    auto pl = aabb_planes(A);
    bool inside = true, strict = true;
    for (auto &p : pl) {
        inside = inside && p.distance_to(P) <= 0;
        strict = strict && p.distance_to(P) < 0;
    }
    EXPECT(inside == in(A, P), "box-planes", "{}", desc());
    vp::mark(fmt::format("box{}{}{}{}", meet, overlap, in(A, P), A.contains(B)));
}

static V closest_seg(V a, V b, V p)
{
    V d = b - a;
    L l = dot(d, d);
    L t = l == 0 ? 0 : std::clamp(dot(p - a, d) / l, (L)0, (L)1);
    return a + d * t;
}
static void math_case(rng &r)
{
    Poly p = rnd_poly(r, 9, 500, 500);
    std::vector<qvec3f> pts;
    std::vector<V> P;
    for (auto &v : p.pts) {
        pts.push_back(fromV<float>(v));
        P.push_back(toV(pts.back()));
    }
    auto desc = [&] { return str(P); };
    auto rp = [&] { return qvec3f((float)r.real(-600, 600), (float)r.real(-600, 600), (float)r.real(-600, 600)); };
    L scale = 1500;
    // normals and edge planes of polygons
    p.center = V{};
    for (auto &v : P)
        p.center = p.center + v * (1.0L / P.size());
    L thick = 1e30L;
    for (size_t i = 0; i < P.size(); i++)
        thick = std::min(thick, len(P[(i + 1) % P.size()] - P[i]));
    if (p.r > 20 && thick > 2) {
        auto fn = FaceNormal(pts);
        EXPECT(near(toV(fn), p.normal, 2e-3L), "face-normal", "{} want {}: {}", str(toV(fn)), str(p.normal), desc());
        auto pp = PolyPlane(pts);
        for (auto &v : pts)
            EXPECT(fabs(DistAbovePlane(pp, v)) < 0.5, "poly-plane", "{}", desc());
        auto eps = MakeInwardFacingEdgePlanes(pts);
        EXPECT(eps.size() == pts.size(), "edge-planes", "{} of {}: {}", eps.size(), pts.size(), desc());
        for (int k = 0; k < 6; k++) {
            V q{};
            L s = 0;
            std::vector<L> w;
            for (auto &v : P)
                w.push_back(0.1L + r.unit()), s += w.back();
            for (size_t i = 0; i < P.size(); i++)
                q = q + P[i] * (w[i] / s);
            EXPECT(EdgePlanes_PointInside(eps, fromV<float>(q)), "edge-inside", "inside {}: {}", str(q), desc());
            // outside beyond a random edge by a clear margin
            size_t e = r.range(0, P.size() - 1);
            V outw = unit(cross(p.normal, P[(e + 1) % P.size()] - P[e]));
            V mid = (P[e] + P[(e + 1) % P.size()]) * 0.5L;
            if (dot(outw, p.center - mid) > 0)
                outw = outw * -1;
            L off = r.real(1, 50);
            V o = mid + outw * off;
            EXPECT(!EdgePlanes_PointInside(eps, fromV<float>(o)), "edge-inside", "outside {} by {}: {}", str(o), (double)off, desc());
            float din = EdgePlanes_PointInsideDist(eps, fromV<float>(o));
            EXPECT(din <= -off + 0.1 , "edge-dist", "{} want <= {}", din, (double)-off);
            // random normal interpolation hits vertices exactly
            std::vector<qvec3f> ns;
            for (size_t i = 0; i < pts.size(); i++)
                ns.push_back(rp());
            size_t vi = r.range(0, pts.size() - 1);
            auto in = InterpolateNormal(pts, ns, fromV<float>(q));
            EXPECT(in.first, "interp-inside", "inside point {} not found: {}", str(q), desc());
            auto iv = InterpolateNormal(pts, ns, pts[vi]);
            // sliver triangles of the fan make barycentrics ill-conditioned: judge only fat ones
            bool fat = true;
            for (size_t i = 2; i < P.size(); i++) {
                V n = cross(P[i - 1] - P[0], P[i] - P[0]);
                L m = std::max({dot(P[i] - P[0], P[i] - P[0]), dot(P[i - 1] - P[0], P[i - 1] - P[0])});
                fat = fat && len(n) > 0.2L * m;
            }
            if (fat)
                EXPECT(iv.first && near(toV(iv.second), toV(ns[vi]), 15), "interp-vertex", "vertex {}: {} want {}: {}", vi, str(toV(iv.second)), str(toV(ns[vi])), desc());
            if (fat) {
                std::vector<qvec3f> flat(pts.size(), ns[0]);
                auto ic = InterpolateNormal(pts, flat, fromV<float>(q));
                EXPECT(ic.first && near(toV(ic.second), toV(ns[0]), 1), "interp-const", "{} want {}", str(toV(ic.second)), str(toV(ns[0])));
            }
            EXPECT(!InterpolateNormal(pts, ns, fromV<float>(o)).first, "interp-outside", "outside {}: {}", str(o), desc());
        }
        // centroid/area
        auto pc = qv::PolyCentroid(pts.begin(), pts.end());
        V c{};
        L at = 0;
        for (size_t i = 2; i < P.size(); i++) {
            L a = len(cross(P[i - 1] - P[0], P[i] - P[0])) / 2;
            at += a;
            c = c + (P[0] + P[i - 1] + P[i]) * (a / 3);
        }
        EXPECT(near(toV(pc), c * (1 / at), 0.5), "centroid", "{} want {}", str(toV(pc)), str(c * (1 / at)));
        EXPECT(fabsl(qv::PolyArea(pts.begin(), pts.end()) - at) < 1e-3L * at + 1, "polyarea", "{} want {}", qv::PolyArea(pts.begin(), pts.end()), (double)at);
        // ClipPoly / ShrinkPoly
        L inr = 1e30L;
        for (size_t e = 0; e < P.size(); e++) {
            V n = unit(cross(p.normal, P[(e + 1) % P.size()] - P[e]));
            inr = std::min(inr, fabsl(dot(n, p.center - P[e])));
        }
        if (inr > 6) {
            auto sh = ShrinkPoly(pts, 2);
            EXPECT(sh.size() >= 3, "shrink", "vanished: {}", desc());
            // a component rounded to exactly +-1 is taken for an axial plane: the others (up to 3.4e-4 in float) are ignored
            L slack = 0;
            for (auto &e : eps)
                for (int j = 0; j < 3; j++)
                    if (std::fabs(e[j]) == 1)
                        for (auto &v : pts)
                            slack = std::max(slack, fabsl((L)e[(j + 1) % 3] * v[(j + 1) % 3]) + fabsl((L)e[(j + 2) % 3] * v[(j + 2) % 3]));
            for (auto &v : sh)
                EXPECT(EdgePlanes_PointInsideDist(eps, v) >= 2 - 0.25 - slack, "shrink", "vertex {} only {} inside: {}", str(toV(v)), EdgePlanes_PointInsideDist(eps, v), desc());
            std::vector<V> S;
            for (auto &v : sh)
                S.push_back(toV(v));
            L per = 0;
            for (size_t i = 0; i < P.size(); i++)
                per += len(P[(i + 1) % P.size()] - P[i]);
            EXPECT(area(S) >= area(P) - (2.3L + slack) * per - 1, "shrink", "lost {} of {}", (double)(area(P) - area(S)), (double)area(P));
        }
    }
    // random points lie in the polygon
    if (area(P) > 50) {
        auto st = PolyRandomPoint_Setup(pts);
        auto ep = MakeInwardFacingEdgePlanes(pts);
        for (int k = 0; k < 4; k++) {
            auto q = PolyRandomPoint(st, (float)(r.unit() * 0.999), (float)r.unit(), (float)r.unit());
            if (thick > 2)
                EXPECT(EdgePlanes_PointInside(ep, q), "random-point", "{} outside {}", str(toV(q)), desc());
        }
    }
    // lines
    auto v = rp(), w = rp(), q = rp();
    if (r.chance(.15))
        w = v;
    if (r.chance(.2))
        q = v + (w - v) * (float)r.of<double>({-1, 0, .5, 1, 2});
    V A = toV(v), B = toV(w), Q = toV(q);
    L sl = len(B - A);
    if (sl == 0 || sl > 20) {
        V cs = closest_seg(A, B, Q);
        EXPECT(near(toV(ClosestPointOnLineSegment(v, w, q)), cs, 0.05), "closest-seg", "{} {} {}: {} want {}", str(A), str(B), str(Q), str(toV(ClosestPointOnLineSegment(v, w, q))), str(cs));
        EXPECT(fabsl(DistToLineSegment(v, w, q) - len(cs - Q)) < 0.1, "dist-seg", "{} {} {}", str(A), str(B), str(Q));
        if (sl > 0) {
            L t = dot(Q - A, B - A) / (sl * sl);
            EXPECT(fabsl(FractionOfLine(v, w, q) - t) < 1e-3L * (1 + fabsl(t)), "fraction", "{} want {}", FractionOfLine(v, w, q), (double)t);
            V cl = A + (B - A) * t;
            EXPECT(near(toV(ClosestPointOnLine(v, w, q)), cl, 0.05 * (1 + fabsl(t))), "closest-line", "{} {} {}", str(A), str(B), str(Q));
            EXPECT(fabsl(DistToLine(v, w, q) - len(cl - Q)) < 0.1 * (1 + fabsl(t)), "dist-line", "{} {} {}", str(A), str(B), str(Q));
        } else
            EXPECT(FractionOfLine(v, w, q) == 0, "fraction", "degenerate line");
        // overlap of colinear segments
        if (sl > 20) {
            V d = (B - A) * (1 / sl);
            L t0 = r.real(-2, 3), t1 = r.real(-2, 3);
            V off{};
            bool away = r.chance(.3);
            if (away) {
                V x, y;
                basis(unit(d), x, y);
                off = x * 3;
            }
            bool wantov = !away && !(t0 < 0 && t1 < 0) && !(t0 > 1 && t1 > 1);
            if (fabsl(t0) > .02L && fabsl(t1) > .02L && fabsl(t0 - 1) > .02L && fabsl(t1 - 1) > .02L)
                EXPECT(LinesOverlap(v, w, fromV<float>(A + (B - A) * t0 + off), fromV<float>(A + (B - A) * t1 + off)) == wantov, "lines-overlap", "t {} {} away {}", (double)t0, (double)t1, away);
        }
        auto pal = PointsAlongLine(v, w, 16.f);
        if (sl > 0) {
            EXPECT(labs((long)pal.size() - ((long)(sl / 16) + 1)) <= (fmodl(sl, 16) < .01L || fmodl(sl, 16) > 15.99L ? 1 : 0), "along-line", "{} points on {}", pal.size(), (double)sl);
            for (size_t i = 0; i < pal.size(); i++)
                EXPECT(near(toV(pal[i]), A + (B - A) * (16.0L * i / sl), 0.01), "along-line", "point {}", i);
        } else
            EXPECT(pal.empty(), "along-line", "degenerate");
    }
    auto cb = ClosestPointOnPolyBoundary(pts, q);
    L best = 1e30L;
    for (size_t i = 0; i < P.size(); i++)
        best = std::min(best, len(closest_seg(P[i], P[(i + 1) % P.size()], Q) - Q));
    EXPECT(fabsl(len(toV(cb.second) - Q) - best) < 0.2 && cb.first >= 0 && cb.first < (int)P.size() &&
               len(closest_seg(P[cb.first], P[(cb.first + 1) % P.size()], Q) - Q) < best + 0.2, "closest-poly", "{} from {}", str(Q), desc());
    // planes
    auto mp = MakePlane(fromV<float>(p.normal), q);
    EXPECT(fabs(DistAbovePlane(mp, q)) < 0.01, "make-plane", "{}", str(Q));
    auto pr = ProjectPointOntoPlane(mp, v);
    EXPECT(fabs(DistAbovePlane(mp, pr)) < 0.05 && len(cross(toV(pr) - A, p.normal)) < 0.05 * (1 + len(A - Q) / 500), "project", "{}", str(A));
    // signed angle: positive is clockwise seen from the normal's tip
    {
        V a, b;
        basis(p.normal, a, b);
        L th = r.real(-3, 3);
        if (fabsl(th) > .05L) {
            V e = a * cosl(th) + b * sinl(th);
            float got = SignedDegreesBetweenUnitVectors(fromV<float>(a), fromV<float>(e), fromV<float>(p.normal));
            L sgn = dot(cross(a, b), p.normal) > 0 ? -1 : 1;
            EXPECT(fabsl(got - sgn * th * 180 / acosl(-1.0L)) < 0.2, "signed-angle", "{} for {}", got, (double)(th * 180 / acosl(-1.0L)));
            // two faces that meet at an edge
            V c1 = V{{0, 0, 0}} - a * 40, n1 = p.normal;
            L fold = r.real(-1.2, 1.2);
            V dir2 = a * cosl(fold) + p.normal * sinl(fold);
            V c2 = dir2 * 40, n2 = p.normal * cosl(fold) - a * sinl(fold);
            if (fabsl(fold) > .05L) {
                auto cv = FacePairConcavity(fromV<float>(c1), fromV<float>(n1), fromV<float>(c2), fromV<float>(n2));
                EXPECT(cv == (fold > 0 ? concavity_t::Concave : concavity_t::Convex), "concavity", "fold {} gives {}", (double)fold, (int)cv);
            }
            EXPECT(FacePairConcavity(fromV<float>(c1), qvec3f(0, 0, 1), fromV<float>(c1 + V{{40, 7, 0}}), qvec3f(0, 0, 1)) == concavity_t::Coplanar, "concavity", "coplanar");
        }
    }
    // bilinear
    {
        float x = r.unit(), y = r.unit();
        auto bw = bilinearWeights(x, y);
        EXPECT(fabs(bw[0] + bw[1] + bw[2] + bw[3] - 1) < 1e-5 && fabs(bw[0] - (1 - x) * (1 - y)) < 1e-6 && fabs(bw[1] - x * (1 - y)) < 1e-6 && fabs(bw[2] - (1 - x) * y) < 1e-6, "bilinear", "{} {}", x, y);
        qvec2i sz(r.range(2, 20), r.range(2, 20));
        qvec2f ps((float)r.real(-.5, sz[0] - .5), (float)r.real(-.5, sz[1] - .5));
        if (r.chance(.3))
            ps[0] = std::round(ps[0]) , ps[0] = std::clamp<float>(ps[0], 0, sz[0] - 1);
        auto wc = bilinearWeightsAndCoords(ps, sz);
        float tx = std::clamp<float>(ps[0], 0, sz[0] - 1), ty = std::clamp<float>(ps[1], 0, sz[1] - 1);
        L sx = 0, sy = 0, sw = 0;
        for (auto &k : wc) {
            EXPECT(k.first[0] >= 0 && k.first[0] < sz[0] && k.first[1] >= 0 && k.first[1] < sz[1] && k.second >= 0 && fabs(k.first[0] - tx) <= 1.0001 && fabs(k.first[1] - ty) <= 1.0001, "bilinear-coords", "{} {} of {} {}", ps[0], ps[1], sz[0], sz[1]);
            sx += k.first[0] * k.second, sy += k.first[1] * k.second, sw += k.second;
        }
        EXPECT(fabsl(sx - tx) < 1e-4L && fabsl(sy - ty) < 1e-4L && fabsl(sw - 1) < 1e-5L, "bilinear-coords", "reconstruct {} {} want {} {}", (double)sx, (double)sy, tx, ty);
        EXPECT(fabs(bilinearInterpolate(1.0f, 1.0f, 1.0f, 1.0f, x, y) - 1) < 1e-5, "bilinear", "constant");
    }
    // cdf
    {
        std::vector<float> pdf;
        for (int i = r.range(1, 8); i > 0; i--)
            pdf.push_back((float)r.real(0.01, 5));
        auto cdf = MakeCDF(pdf);
        L s = 0, tot = 0;
        for (auto f : pdf)
            tot += f;
        EXPECT(cdf.size() == pdf.size(), "cdf", "size");
        for (size_t i = 0; i < cdf.size(); i++) {
            s += pdf[i];
            EXPECT(fabsl(cdf[i] - s / tot) < 1e-4L, "cdf", "entry {}", i);
        }
        float smp = r.unit() * 0.999f;
        int got = SampleCDF(cdf, smp);
        EXPECT(got >= 0 && got < (int)cdf.size() && smp <= cdf[got] && (got == 0 || smp > cdf[got - 1]), "cdf", "sample {} -> {}", smp, got);
    }
    // misc
    int z = r.range(0, 1000);
    EXPECT(align_value<4>(z) >= z && align_value<4>(z) % 4 == 0 && align_value<4>(z) < z + 4, "align", "{}", z);
    double mx = r.unit();
    EXPECT(fabs(mix(3.0, 11.0, mx) - (3 + 8 * mx)) < 1e-9, "mix", "{}", mx);
    EXPECT(avg(1.0, 2.0, 6.0) == 3.0, "avg", "");
    EXPECT(fabs(DEG2RAD(mx * 360) - mx * 2 * M_PI) < 1e-12, "deg2rad", "");
    float g1 = Filter_Gaussian(1, 1, (float)mx, 0), g2 = Filter_Gaussian(1, 1, (float)-mx, 0), g3 = Filter_Gaussian(1, 1, 0, 0);
    EXPECT(g1 == g2 && g1 <= g3 && g1 >= 0 && Filter_Gaussian(1, 1, 1.5f, 0) == 0 && Filter_Gaussian(1, 1, 0, 1.5f) == 0, "gaussian", "{}", mx);
    EXPECT(Lanczos2D(0, 0, 3) == 1 && Lanczos2D(3.5f, 0, 3) == 0 && fabs(Lanczos2D(1, 0, 3)) < 1e-5 && fabs(Lanczos2D((float)mx, 0, 3) - Lanczos2D(0, (float)-mx, 3)) < 1e-5, "lanczos", "{}", mx);
    // snap
    {
        qvec3d n(0, 0, 0);
        int ax = r.range(0, 2);
        n[ax] = r.chance(.5) ? 1 : -1;
        auto m = n;
        m[(ax + 1) % 3] = 1e-9;
        m[ax] += n[ax] * -1e-8;
        EXPECT(qv::Snap(m) == n, "snap", "{}", str(toV(m)));
        qvec3d o = fromV<double>(rnd_dir(r));
        bool nearax = false;
        for (int i = 0; i < 3; i++)
            nearax |= fabs(fabs(o[i]) - 1) < 2e-6;
        if (!nearax)
            EXPECT(qv::Snap(o) == o, "snap", "{}", str(toV(o)));
    }
    // colour normalisation
    {
        qvec3d c(r.real(0, 1), r.real(0, 1), r.real(0, 1)), c2(r.real(1.1, 255), r.real(0, 255), r.real(0, 255));
        EXPECT(qv::normalize_color_format(c) == c * 255 && qv::normalize_color_format(c2) == c2, "color", "");
    }
    vp::mark(fmt::format("math{}n{}", (int)log2l(p.r), P.size()));
}
template<class D, class S> static void castone(S v, const char *nm)
{
    bool fits = (__int128)v >= (__int128)std::numeric_limits<D>::lowest() && (__int128)v <= (__int128)std::numeric_limits<D>::max();
    bool threw = false;
    D got{};
    try {
        got = numeric_cast<D>(v);
    } catch (const std::overflow_error &) {
        threw = true;
    } catch (const std::exception &) {
        threw = true;
    }
    EXPECT(threw == !fits && (threw || (__int128)got == (__int128)v), "numeric-cast", "{} of {}: fits {} threw {}", nm, v, fits, threw);
    vp::mark(fmt::format("cast{}{}", nm, fits));
}
static void cast_case(rng &r)
{
    int64_t base = r.of<int64_t>({0, 127, 128, 255, 256, -128, -129, 32767, 32768, 65535, 65536, -32768, -32769, 2147483647ll, 2147483648ll, -2147483648ll, -2147483649ll, 4294967295ll, 4294967296ll, INT64_MAX - 3, INT64_MIN + 3, -1});
    int64_t v = base + r.range(-2, 2);
    castone<int16_t, int32_t>((int32_t)v, "i32-i16");
    castone<uint16_t, int32_t>((int32_t)v, "i32-u16");
    castone<uint16_t, uint32_t>((uint32_t)v, "u32-u16");
    castone<int16_t, uint32_t>((uint32_t)v, "u32-i16");
    castone<uint8_t, int32_t>((int32_t)v, "i32-u8");
    castone<int32_t, uint32_t>((uint32_t)v, "u32-i32");
    castone<int32_t, int64_t>(v, "i64-i32");
    castone<uint32_t, int64_t>(v, "i64-u32");
    castone<int32_t, size_t>((size_t)v, "u64-i32");
    castone<uint16_t, size_t>((size_t)v, "u64-u16");
    castone<int16_t, int64_t>(v, "i64-i16");
    castone<int32_t, int16_t>((int16_t)v, "i16-i32");
    castone<uint32_t, int16_t>((int16_t)v, "i16-u32");
    castone<int64_t, int32_t>((int32_t)v, "i32-i64");
}
static void vecs(rng &r)
{
    vec_case<double>(r);
    vec_case<float>(r);
    mat_case(r);
    box_case<double>(r);
    box_case<float>(r);
    math_case(r);
    cast_case(r);
}
int main(int argc, char **argv)
{
    return vp::drive(argc, argv, {{"vec", vecs}});
}
