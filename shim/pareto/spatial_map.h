// Stand-in for the "pareto" library (an empty git submodule in this sandbox).
// Implements exactly the API subset ericw-tools uses: emplace, find_intersection, end.
// find_intersection returns the first-inserted element inside the closed box.
#pragma once
#include <array>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <initializer_list>
#include <unordered_map>
#include <utility>
#include <vector>
namespace pareto
{
template<class T, size_t N>
struct point : std::array<T, N>
{
    point() : std::array<T, N>{} { }
    template<class... A, class = std::enable_if_t<sizeof...(A) == N>>
    point(A... a) : std::array<T, N>{static_cast<T>(a)...}
    {
    }
    point(std::initializer_list<T> l)
    {
        size_t i = 0;
        for (T v : l)
            (*this)[i++] = v;
    }
};
template<class T, size_t N, class V>
class spatial_map
{
    using P = point<T, N>;
    using E = std::pair<P, V>;
    std::vector<E> items;
    std::unordered_map<uint64_t, std::vector<size_t>> cells;
    static int64_t cell(T v) { return static_cast<int64_t>(std::floor(v * 4.0)); }
    static uint64_t mix(uint64_t h, int64_t c)
    {
        h ^= static_cast<uint64_t>(c) + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
        return h * 0xff51afd7ed558ccdull;
    }

public:
    using iterator = E *;
    iterator end() { return items.data() + items.size(); }
    iterator begin() { return items.data(); }
    size_t size() const { return items.size(); }
    void clear() { items.clear(); cells.clear(); }
    void emplace(const P &p, const V &v)
    {
        uint64_t h = 0;
        for (size_t i = 0; i < N; i++)
            h = mix(h, cell(p[i]));
        cells[h].push_back(items.size());
        items.emplace_back(p, v);
    }
    iterator find_intersection(const P &lo, const P &hi)
    {
        std::array<int64_t, N> a, b, c;
        for (size_t i = 0; i < N; i++) {
            a[i] = c[i] = cell(lo[i]);
            b[i] = cell(hi[i]);
        }
        size_t best = items.size();
        while (true) {
            uint64_t h = 0;
            for (size_t i = 0; i < N; i++)
                h = mix(h, c[i]);
            if (auto it = cells.find(h); it != cells.end()) {
                for (size_t k : it->second) {
                    if (k >= best)
                        break;
                    const P &p = items[k].first;
                    bool in = true;
                    for (size_t i = 0; i < N && in; i++)
                        in = p[i] >= lo[i] && p[i] <= hi[i];
                    if (in)
                        best = k;
                }
            }
            size_t i = 0;
            for (; i < N; i++) {
                if (++c[i] <= b[i])
                    break;
                c[i] = a[i];
            }
            if (i == N)
                break;
        }
        return items.data() + best;
    }
};
} // namespace pareto
