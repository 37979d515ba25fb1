// Random map generation and reference grid algorithms (independent of the library).
#ifndef VERIF_MAPS_HPP
#define VERIF_MAPS_HPP
#include "common.hpp"
#include <queue>

namespace vf {

// cell classes
enum { FREE = 0, UNKNOWN = 1, OCC = 2 };

struct GMap {
    int w, h;
    std::vector<uint8_t> c; // class per cell
    GMap(int w_ = 0, int h_ = 0) : w(w_), h(h_), c((size_t)w_ * h_, FREE) {}
    bool in(int x, int y) const { return x >= 0 && y >= 0 && x < w && y < h; }
    uint8_t at(int x, int y) const { return c[(size_t)y * w + x]; }
    uint8_t& at(int x, int y) { return c[(size_t)y * w + x]; }
    bool free(int x, int y) const { return in(x, y) && at(x, y) == FREE; }
    bool occ(int x, int y) const { return in(x, y) && at(x, y) == OCC; }
    std::string dump() const {
        std::ostringstream o;
        o << w << "x" << h;
        if ((long)w * h <= 4000) {
            o << " [";
            for (int y = 0; y < h; ++y) { if (y) o << "/"; for (int x = 0; x < w; ++x) o << ".?#"[at(x, y)]; }
            o << "]";
        }
        return o.str();
    }
    uint64_t hash() const {
        uint64_t k = 1469598103934665603ull ^ (uint64_t)w * 7919 ^ h;
        for (uint8_t v : c) k = (k ^ v) * 1099511628211ull;
        return k;
    }
};

inline void rect(GMap& m, int x0, int y0, int x1, int y1, uint8_t v) {
    for (int y = std::max(0, y0); y <= std::min(m.h - 1, y1); ++y)
        for (int x = std::max(0, x0); x <= std::min(m.w - 1, x1); ++x) m.at(x, y) = v;
}

inline void carve_maze(GMap& m, Rng& r) {
    for (auto& v : m.c) v = OCC;
    if (m.w < 3 || m.h < 3) { for (auto& v : m.c) v = FREE; return; }
    std::vector<std::pair<int, int> > st;
    st.push_back(std::make_pair(1, 1));
    m.at(1, 1) = FREE;
    const int dx[] = {2, -2, 0, 0}, dy[] = {0, 0, 2, -2};
    while (!st.empty()) {
        std::pair<int, int> p = st.back();
        int order[4] = {0, 1, 2, 3};
        for (int i = 3; i > 0; --i) std::swap(order[i], order[r.next() % (i + 1)]);
        bool moved = false;
        for (int i = 0; i < 4 && !moved; ++i) {
            int nx = p.first + dx[order[i]], ny = p.second + dy[order[i]];
            if (nx > 0 && ny > 0 && nx < m.w && ny < m.h && m.at(nx, ny) == OCC) {
                m.at(nx, ny) = FREE;
                m.at(p.first + dx[order[i]] / 2, p.second + dy[order[i]] / 2) = FREE;
                st.push_back(std::make_pair(nx, ny));
                moved = true;
            }
        }
        if (!moved) st.pop_back();
    }
}

// kind <0: random kind
inline GMap gen_map(Rng& r, int w, int h, int kind = -1) {
    GMap m(w, h);
    if (kind < 0) kind = (int)r.range(0, 9);
    switch (kind) {
    case 0: break;                                           // empty
    case 1: case 2: {                                        // random noise
        double p = kind == 1 ? r.real(0.02, 0.25) : r.real(0.25, 0.5);
        double q = r.chance(0.5) ? 0 : r.real(0, 0.1);
        for (auto& v : m.c) v = r.chance(p) ? OCC : (r.chance(q) ? UNKNOWN : FREE);
        break;
    }
    case 3: {                                                // walls with gaps
        int n = (int)r.range(1, 6);
        for (int i = 0; i < n; ++i) {
            bool vert = r.chance(0.5), unk = r.chance(0.2);
            if (vert) { int x = (int)r.range(0, w - 1); rect(m, x, 0, x, h - 1, unk ? UNKNOWN : OCC); if (r.chance(0.85)) m.at(x, (int)r.range(0, h - 1)) = FREE; }
            else { int y = (int)r.range(0, h - 1); rect(m, 0, y, w - 1, y, unk ? UNKNOWN : OCC); if (r.chance(0.85)) m.at((int)r.range(0, w - 1), y) = FREE; }
        }
        break;
    }
    case 4: carve_maze(m, r); break;
    case 5: {                                                // maze with loops
        carve_maze(m, r);
        double p = r.real(0.02, 0.2);
        for (auto& v : m.c) if (v == OCC && r.chance(p)) v = FREE;
        break;
    }
    case 6: {                                                // blocks
        int n = (int)r.range(1, 12);
        for (int i = 0; i < n; ++i) {
            int x = (int)r.range(0, w - 1), y = (int)r.range(0, h - 1);
            rect(m, x, y, x + (int)r.range(0, std::max(1, w / 3)), y + (int)r.range(0, std::max(1, h / 3)), r.chance(0.15) ? UNKNOWN : OCC);
        }
        break;
    }
    case 7: {                                                // spiral / U traps
        int cx = w / 2, cy = h / 2, k = (int)r.range(2, std::max(2, std::min(w, h) / 2));
        rect(m, cx - k, cy - k, cx + k, cy - k, OCC); rect(m, cx - k, cy + k, cx + k, cy + k, OCC); rect(m, cx + k, cy - k, cx + k, cy + k, OCC);
        if (r.chance(0.3)) rect(m, cx - k, cy - k, cx - k, cy + k, OCC);
        if (r.chance(0.5) && k > 3) { int j = k - 2; rect(m, cx - j, cy - j, cx - j, cy + j, OCC); rect(m, cx - j, cy - j, cx + j, cy - j, OCC); rect(m, cx - j, cy + j, cx + j, cy + j, OCC); }
        break;
    }
    case 8: {                                                // diagonal walls (8-connected leaks)
        int n = (int)r.range(1, 4);
        for (int i = 0; i < n; ++i) {
            int x = (int)r.range(0, w - 1), y = (int)r.range(0, h - 1), d = r.chance(0.5) ? 1 : -1;
            bool thick = r.chance(0.5);
            for (int k = 0; k < std::max(w, h); ++k) {
                int xx = x + k * d, yy = y + k;
                if (m.in(xx, yy)) m.at(xx, yy) = OCC;
                if (thick && m.in(xx + 1, yy)) m.at(xx + 1, yy) = OCC;
            }
        }
        break;
    }
    default: {                                               // mostly blocked corridors
        for (auto& v : m.c) v = r.chance(0.1) ? UNKNOWN : OCC;
        int n = (int)r.range(2, 8), x = (int)r.range(0, w - 1), y = (int)r.range(0, h - 1);
        for (int i = 0; i < n; ++i) {
            int nx = (int)r.range(0, w - 1), ny = (int)r.range(0, h - 1);
            rect(m, std::min(x, nx), y, std::max(x, nx), y, FREE);
            rect(m, nx, std::min(y, ny), nx, std::max(y, ny), FREE);
            x = nx; y = ny;
        }
    }
    }
    if (kind == 0 && r.chance(0.3)) { rect(m, 0, 0, w - 1, 0, OCC); rect(m, 0, h - 1, w - 1, h - 1, OCC); rect(m, 0, 0, 0, h - 1, OCC); rect(m, w - 1, 0, w - 1, h - 1, OCC); }
    return m;
}

inline std::pair<int, int> gen_size(Rng& r, int maxside) {
    if (r.chance(0.1)) return std::make_pair((int)r.range(1, 4), (int)r.range(1, 4));
    if (r.chance(0.1)) return r.chance(0.5) ? std::make_pair((int)r.range(1, maxside), (int)r.range(1, 2)) : std::make_pair((int)r.range(1, 2), (int)r.range(1, maxside));
    return std::make_pair((int)r.range(3, maxside), (int)r.range(3, maxside));
}

// Maps whose coordinates or distances do not fit into 16 bits: a long corridor of one to three lanes, free or with walls that have a gap each.
inline GMap wide_map(Rng& r) {
    int n = (int)r.range(33000, 70000), k = (int)r.range(1, 3);
    bool turn = r.chance(0.5);
    GMap m(turn ? k : n, turn ? n : k);
    if (k > 1 && r.chance(0.6)) for (int i = (int)r.range(1, 40); i > 0; --i) {
        int a = (int)r.range(1, n - 2), gap = (int)r.range(0, k - 1);
        for (int b = 0; b < k; ++b) if (b != gap) m.at(turn ? b : a, turn ? a : b) = r.chance(0.8) ? OCC : UNKNOWN;
    }
    return m;
}
// A cell within the first or the last cells of a corridor.
inline std::pair<int, int> wide_cell(Rng& r, const GMap& g, bool last) {
    bool turn = g.h > g.w;
    int n = turn ? g.h : g.w, k = turn ? g.w : g.h, a = (int)r.range(0, r.chance(0.5) ? 3 : 3000), b = (int)r.range(0, k - 1);
    if (last) a = n - 1 - a;
    return turn ? std::make_pair(b, a) : std::make_pair(a, b);
}

// Library values of a class under thresholds (lower, upper).
inline uint8_t value_of(Rng& r, uint8_t cls, int lower, int upper) {
    switch (cls) {
    case FREE: return (uint8_t)(r.chance(0.3) ? lower : r.range(0, lower));
    case OCC: return (uint8_t)(r.chance(0.3) ? upper : r.range(upper, 255));
    default: return (uint8_t)r.range(lower + 1, upper - 1);
    }
}

// A free cell if there is one (several tries), else any.
inline std::pair<int, int> pick_cell(Rng& r, const GMap& m, bool want_free) {
    std::pair<int, int> p;
    for (int i = 0; i < 50; ++i) {
        p = std::make_pair((int)r.range(0, m.w - 1), (int)r.range(0, m.h - 1));
        if (!want_free || m.at(p.first, p.second) == FREE) break;
    }
    return p;
}

static const int DX8[8] = {1, -1, 0, 0, 1, 1, -1, -1}, DY8[8] = {0, 0, 1, -1, 1, -1, 1, -1};

// Cheapest cost from s over cells entered only if enter(x,y); cost 1 straight, sqrt2 diagonal (n=4 or 8).
template <class Enter>
std::vector<double> dijkstra(const GMap& m, int sx, int sy, int n, Enter enter) {
    std::vector<double> d((size_t)m.w * m.h, std::numeric_limits<double>::infinity());
    typedef std::pair<double, int> E;
    std::priority_queue<E, std::vector<E>, std::greater<E> > q;
    d[(size_t)sy * m.w + sx] = 0;
    q.push(E(0, sy * m.w + sx));
    while (!q.empty()) {
        E e = q.top(); q.pop();
        if (e.first > d[e.second]) continue;
        int x = e.second % m.w, y = e.second / m.w;
        for (int i = 0; i < n; ++i) {
            int nx = x + DX8[i], ny = y + DY8[i];
            if (!m.in(nx, ny) || !enter(nx, ny)) continue;
            double nd = e.first + (i < 4 ? 1.0 : std::sqrt(2.0));
            if (nd < d[(size_t)ny * m.w + nx] - 1e-12) { d[(size_t)ny * m.w + nx] = nd; q.push(E(nd, ny * m.w + nx)); }
        }
    }
    return d;
}

} // namespace vf
#endif
