// Polygons (winding_base_t over every storage), vectors, planes, boxes and mathlib against long-double reference models.
#pragma once
#include "vph.hh"
#include <common/aabb.hh>
#include <common/mathlib.hh>
#include <common/numeric_cast.hh>
#include <common/polylib.hh>
#include <common/qvec.hh>

using namespace polylib;
using L = long double;
using vp::rng;
struct V
{
    L x[3]{};
    L &operator[](int i) { return x[i]; }
    L operator[](int i) const { return x[i]; }
};
static V operator+(V a, V b) { return {{a[0] + b[0], a[1] + b[1], a[2] + b[2]}}; }
static V operator-(V a, V b) { return {{a[0] - b[0], a[1] - b[1], a[2] - b[2]}}; }
static V operator*(V a, L s) { return {{a[0] * s, a[1] * s, a[2] * s}}; }
static L dot(V a, V b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static V cross(V a, V b) { return {{a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}}; }
static L len(V a) { return sqrtl(dot(a, a)); }
static V unit(V a) { L l = len(a); return l ? a * (1 / l) : a; }
template<class T> static V toV(const qvec<T, 3> &q) { return {{(L)q[0], (L)q[1], (L)q[2]}}; }
template<class T> static qvec<T, 3> fromV(V v) { return qvec<T, 3>((T)v[0], (T)v[1], (T)v[2]); }
static std::string str(V v) { return fmt::format("({} {} {})", (double)v[0], (double)v[1], (double)v[2]); }
static std::string str(const std::vector<V> &p)
{
    std::string s;
    for (auto &v : p)
        s += str(v);
    return s;
}
struct Poly
{
    std::vector<V> pts;
    V normal; // qbsp convention: clockwise seen from the front
    V center;
    L r;
};
static L area(const std::vector<V> &p)
{
    if (p.size() < 3)
        return 0;
    V t{};
    for (size_t i = 2; i < p.size(); i++)
        t = t + cross(p[i - 1] - p[0], p[i] - p[0]);
    return len(t) / 2;
}
static V rnd_dir(rng &r)
{
    switch (r.range(0, 3)) {
        case 0: { // axial
            V v{};
            v[r.range(0, 2)] = r.chance(.5) ? 1 : -1;
            return v;
        }
        case 1: { // small-integer slope
            V v{};
            do
                for (int i = 0; i < 3; i++)
                    v[i] = r.range(-3, 3);
            while (len(v) == 0);
            return unit(v);
        }
        case 2: { // nearly axial
            V v{};
            int a = r.range(0, 2);
            for (int i = 0; i < 3; i++)
                v[i] = i == a ? (r.chance(.5) ? 1 : -1) : r.real(-0.02, 0.02);
            return unit(v);
        }
        default: {
            V v{};
            do
                for (int i = 0; i < 3; i++)
                    v[i] = r.real(-1, 1);
            while (len(v) < 0.1L || len(v) > 1);
            return unit(v);
        }
    }
}
static void basis(V n, V &a, V &b)
{
    V t{};
    int m = 0;
    for (int i = 1; i < 3; i++)
        if (fabsl(n[i]) < fabsl(n[m]))
            m = i;
    t[m] = 1;
    a = unit(cross(n, t));
    b = cross(n, a);
}
// convex polygon in strictly convex position; clockwise about the normal as winding_t::plane() expects
static Poly rnd_poly(rng &r, int maxpts = 24, L maxr = 2000, L maxc = 3000)
{
    Poly p;
    p.normal = rnd_dir(r);
    V a, b;
    basis(p.normal, a, b);
    int n = r.range(3, maxpts);
    p.r = r.chance(.3) ? r.real(8, 64) : r.real(64, (double)maxr);
    L ry = p.r * r.real(0.3, 1);
    for (int i = 0; i < 3; i++)
        p.center[i] = r.chance(.3) ? (L)r.range(-64, 64) * 16 : (L)r.real(-(double)maxc, (double)maxc);
    std::vector<L> ang;
    L base = r.real(0, 6.28);
    for (int i = 0; i < n; i++)
        ang.push_back(base + 2 * acosl(-1.0L) * (i + 0.6L * r.unit()) / n);
    for (int i = n - 1; i >= 0; i--)
        p.pts.push_back(p.center + a * (cosl(ang[i]) * p.r) + b * (sinl(ang[i]) * ry));
    // cross(v0-v1, v2-v1) must be along the normal
    if (dot(cross(p.pts[0] - p.pts[1], p.pts[2] - p.pts[1]), p.normal) < 0)
        std::reverse(p.pts.begin(), p.pts.end());
    return p;
}
template<class W> static W make(const std::vector<V> &pts)
{
    W w;
    for (auto &v : pts)
        w.push_back(fromV<typename W::float_type>(v));
    return w;
}
template<class W> static std::vector<V> get(const W &w)
{
    std::vector<V> o;
    for (size_t i = 0; i < w.size(); i++)
        o.push_back(toV(w[i]));
    return o;
}
template<class A, class B> static bool same(const A &a, const B &b)
{
    if (a.size() != b.size())
        return false;
    for (size_t i = 0; i < a.size(); i++)
        for (int j = 0; j < 3; j++)
            if (a[i][j] != b[i][j])
                return false;
    return true;
}
static bool near(V a, V b, L tol)
{
    for (int i = 0; i < 3; i++)
        if (!(fabsl(a[i] - b[i]) <= tol))
            return false;
    return true;
}
// reference clip (same "on" band, exact arithmetic to long-double precision)
static std::vector<V> refclip(const std::vector<V> &p, const std::vector<L> &d, L eps, bool front)
{
    std::vector<V> o;
    size_t n = p.size();
    auto side = [&](size_t i) { return d[i] > eps ? 0 : d[i] < -eps ? 1 : 2; };
    for (size_t i = 0; i < n; i++) {
        size_t j = (i + 1) % n;
        int s = side(i), t = side(j);
        if (s == 2 || s == (front ? 0 : 1))
            o.push_back(p[i]);
        if ((s == 0 && t == 1) || (s == 1 && t == 0))
            o.push_back(p[i] + (p[j] - p[i]) * (d[i] / (d[i] - d[j])));
    }
    return o;
}

