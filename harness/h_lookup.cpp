// State lookup of the 2D managers: C13; their cell and line queries: C36; closed-form heuristics: C15.
#include "maps.hpp"
#include <memory>
#include <cslibs_path_planning/generic/Algorithms.hpp>
#include <cslibs_path_planning/generic/SteeringNeighborhood.hpp>
#include <cslibs_path_planning/common/SimpleGridMap2d.h>

using namespace vf;
using namespace lib_path;

// ---------------------------------------------------------------- C13
namespace {
typedef GridMapManager<HeuristicNode<Pose2d> > M2;
typedef DirectionalStateSpaceManager<DirectionalNode<OrientedNode<Node<Pose2d> > > > MD;

template <class F> bool throws_outside(F f) {
    try { f(); } catch (OutsideMapException&) { return true; }
    return false;
}
struct Probe { double x, y; bool in, judge; int cx, cy; };
Probe gen_probe(Rng& r, int w, int h, int pad) {
    Probe p;
    auto coord = [&](int n, double& v, int& c, bool& in) {
        double k = r.unit();
        if (k < 0.55) { c = (int)r.range(-pad, n + pad - 1); v = c + (r.chance(0.2) ? 0.0 : r.real(0, 0.9999)); }
        else if (k < 0.75) { c = r.chance(0.5) ? -pad : n + pad - 1; v = c + r.real(0, 0.9999); }
        else if (k < 0.85) v = -pad - (r.chance(0.6) ? r.real(1e-6, 0.999) : r.real(1, 50));
        else if (k < 0.95) v = n + pad + (r.chance(0.3) ? 0.0 : r.real(0, 50));
        else v = (r.chance(0.5) ? -1 : 1) * r.pickd({1e6, 3e9, 5e9, 1e18, 1e300});
        c = std::fabs(v) < 1e8 ? (int)std::floor(v) : -100000;
        in = v >= -pad && v < n + pad;
    };
    bool ix, iy;
    coord(w, p.x, p.cx, ix); coord(h, p.y, p.cy, iy);
    p.in = ix && iy;
    p.judge = std::fabs(p.x) < 1e8 && std::fabs(p.y) < 1e8;
    return p;
}
} // namespace

WORKLOAD("C13", lookup_grid, 40000, 1000000, 40,
         "grid manager: lookups by pose, real and integer coordinates inside, on the border of and outside random maps; non-trivial: at least 5 inside and 2 outside") {
    Rng& r = ctx.rng;
    std::pair<int, int> s = gen_size(r, ctx.idx % 100 == 7 ? 400 : 40);
    if (ctx.idx % 2000 == 9) { GMap wide = wide_map(r); s = std::make_pair(wide.w, wide.h); ctx.ev("wide_maps"); }
    SimpleGridMap2d m(s.first, s.second, 0.1);
    M2 mgr;
    if (r.chance(0.3)) { SimpleGridMap2d o((int)r.range(1, 30), (int)r.range(1, 30), 0.1); mgr.setMap(&o); mgr.setMap(&m); } else mgr.setMap(&m);
    ctx.in << "map " << s.first << "x" << s.second; ctx.mix(s.first * 1000 + s.second);
    std::map<void*, std::pair<int, int> > owner;
    std::map<std::pair<int, int>, void*> node;
    int in = 0, out = 0;
    for (int k = 0; k < 40; ++k) {
        Probe p = gen_probe(r, s.first, s.second, 0);
        ctx.mixd(p.x); ctx.mixd(p.y);
        Pose2d pose(p.x, p.y, r.real(-7, 7));
        HeuristicNode<Pose2d>* a = 0;
        bool t = throws_outside([&] { a = mgr.lookup(pose); });
        ctx.check(t == !p.in, "lookup-bounds", str("pose ", p.x, ",", p.y, (t ? " rejected" : " accepted"), " in ", s.first, "x", s.second));
        HeuristicNode<Pose2d>* b = 0;
        if (p.judge) {
            t = throws_outside([&] { b = mgr.lookup(p.x, p.y); });
            ctx.check(t == !p.in, "lookup-bounds-xy", str("point ", p.x, ",", p.y, (t ? " rejected" : " accepted")));
            ctx.check(mgr.contains(p.x, p.y) == p.in, "contains-xy", str("contains(", p.x, ",", p.y, ")"));
            ctx.check(mgr.contains(p.cx, p.cy) == p.in, "contains-cell", str("contains(", p.cx, ",", p.cy, ") as cell"));
            HeuristicNode<Pose2d>* c = 0;
            t = throws_outside([&] { c = mgr.lookup(p.cx, p.cy); });
            ctx.check(t == !p.in, "lookup-bounds-cell", str("cell ", p.cx, ",", p.cy, (t ? " rejected" : " accepted")));
            if (p.in) ctx.check(a == b && b == c, "lookup-agree", str("lookups of ", p.x, ",", p.y, " give different nodes"));
        }
        if (!p.in) { ++out; continue; }
        ++in;
        ctx.check(a->x == p.cx && a->y == p.cy, "lookup-cell", str("pose ", p.x, ",", p.y, " gives the node of ", a->x, ",", a->y));
        std::pair<int, int> cell(p.cx, p.cy);
        ctx.check(!owner.count(a) || owner[a] == cell, "lookup-shared", "two cells share a node");
        ctx.check(!node.count(cell) || node[cell] == a, "lookup-unique", "a cell has two nodes");
        owner[a] = cell; node[cell] = a;
    }
    if (in >= 5 && out >= 2) ctx.interesting();
    ctx.ev("lookups_inside", in); ctx.ev("lookups_outside", out);
}

// Heading sectors: contiguous, at most 12 degrees wide, at least 30 of them.
template <class F> static void check_sectors(Ctx& ctx, F node_at) {
    std::set<void*> seen;
    std::map<void*, double> width;
    void* last = 0;
    const int N = 2000;
    double off = ctx.rng.real(0, 2 * M_PI / N);
    std::vector<void*> v;
    for (int i = 0; i < N; ++i) v.push_back(node_at(-M_PI + off + i * 2 * M_PI / N));
    int changes = 0;
    for (int i = 0; i < N; ++i) { width[v[i]] += 2 * M_PI / N; if (v[i] != v[(i + 1) % N]) ++changes; seen.insert(v[i]); }
    (void)last;
    ctx.check(seen.size() >= 30, "sector-count", str("only ", seen.size(), " heading sectors"));
    ctx.check(changes <= (int)seen.size(), "sector-contiguous", str(seen.size(), " heading sectors but ", changes, " changes around the circle"));
    for (auto& w : width) ctx.check(w.second < 13 * M_PI / 180, "sector-width", str("a heading sector is ", w.second * 180 / M_PI, " degrees wide"));
    for (int k = 0; k < 10; ++k) { double a = ctx.rng.real(-3.1, 3.1); ctx.check(node_at(a) == node_at(a + 2 * M_PI) && node_at(a) == node_at(a - 4 * M_PI), "sector-period", str("heading ", a, " and a full turn more give different states"));
        int turns = (int)ctx.rng.range(-300, 300);
        ctx.check(node_at(a) == node_at(a + turns * 2 * M_PI), "sector-period", str("heading ", a, " and ", turns, " turns more give different states")); }
}

WORKLOAD("C13", lookup_directional, 4000, 100000, 4,
         "monolithic heading/direction state space: lookups by pose, node, real and integer coordinates, sector structure, exclusive ownership of states; non-trivial: at least 5 inside and 2 outside") {
    Rng& r = ctx.rng;
    std::pair<int, int> s = gen_size(r, ctx.idx % 100 == 7 ? 60 : 9);
    SimpleGridMap2d m(s.first, s.second, 0.1);
    MD mgr;
    if (r.chance(0.3)) { SimpleGridMap2d o((int)r.range(1, 9), (int)r.range(1, 9), 0.1); mgr.setMap(&o); mgr.setMap(&m); } else mgr.setMap(&m);
    ctx.in << "map " << s.first << "x" << s.second; ctx.mix(s.first * 1000 + s.second);
    std::map<void*, std::pair<std::pair<int, int>, bool> > owner;
    int in = 0, out = 0;
    for (int k = 0; k < 60; ++k) {
        Probe p = gen_probe(r, s.first, s.second, 0);
        double th = r.chance(0.1) ? r.pickd({-M_PI, M_PI, 0, 2 * M_PI}) : r.real(-7, 7);
        bool fwd = r.chance(0.5);
        ctx.mixd(p.x); ctx.mixd(p.y); ctx.mixd(th);
        Pose2d pose(p.x, p.y, th);
        MD::NodeType nd; nd.x = p.x; nd.y = p.y; nd.theta = th; nd.forward = fwd;
        MD::NodeType *a = 0, *b = 0, *c = 0, *d = 0;
        bool t = throws_outside([&] { a = mgr.lookup(pose); });
        ctx.check(t == !p.in, "lookup-bounds", str("pose ", p.x, ",", p.y, (t ? " rejected" : " accepted"), " in ", s.first, "x", s.second));
        t = throws_outside([&] { b = mgr.lookup(nd); });
        ctx.check(t == !p.in, "lookup-bounds-node", str("node ", p.x, ",", p.y, (t ? " rejected" : " accepted")));
        if (p.judge) {
            t = throws_outside([&] { c = mgr.lookup(p.x, p.y, th, fwd); });
            ctx.check(t == !p.in, "lookup-bounds-xy", str("point ", p.x, ",", p.y, (t ? " rejected" : " accepted")));
            t = throws_outside([&] { d = mgr.lookup(p.cx, p.cy, th, fwd); });
            ctx.check(t == !p.in, "lookup-bounds-cell", str("cell ", p.cx, ",", p.cy, (t ? " rejected" : " accepted")));
            ctx.check(mgr.contains(p.x, p.y) == p.in && mgr.contains(p.cx, p.cy) == p.in, "contains", str("contains(", p.x, ",", p.y, ")"));
            ctx.check(mgr.hasNode(p.cx, p.cy, 0, fwd) == p.in, "hasnode", "hasNode disagrees with the map bounds");
        }
        if (!p.in) { ++out; continue; }
        ++in;
        ctx.check(b == c && c == d, "lookup-agree", str("lookups of ", p.x, ",", p.y, ",", th, " give different states"));
        MD::NodeType* fw = mgr.lookup(p.cx, p.cy, th, true);
        ctx.check(a == fw, "lookup-pose", "lookup by pose is not the forward state");
        ctx.check(mgr.lookup(p.cx, p.cy, th, true) != mgr.lookup(p.cx, p.cy, th, false), "lookup-direction", "forward and backward share a state");
        ctx.check(b->x == p.cx && b->y == p.cy, "lookup-cell", str("pose ", p.x, ",", p.y, " gives a state of ", b->x, ",", b->y));
        auto key = std::make_pair(std::make_pair(p.cx, p.cy), fwd);
        ctx.check(!owner.count(b) || owner[b] == key, "lookup-shared", "two cells share a state");
        owner[b] = key;
    }
    int cx = (int)r.range(0, s.first - 1), cy = (int)r.range(0, s.second - 1);
    check_sectors(ctx, [&](double th) { return (void*)mgr.lookup(cx, cy, th, true); });
    if (in >= 5 && out >= 2) ctx.interesting();
    ctx.ev("lookups_inside", in); ctx.ev("lookups_outside", out);
}

// ---------------------------------------------------------------- C36
namespace {
// A map some of whose cells are blocked for the headings of a half plane (like those close to obstacles for a long robot).
struct HeadingMap : SimpleGridMap2d {
    std::vector<int> dir;               // per cell: 0, or 1 + the octant whose half plane is blocked
    HeadingMap(const SimpleGridMap2d& m) : SimpleGridMap2d(m), dir(m.getWidth() * m.getHeight(), 0) {}
    bool blocked(unsigned x, unsigned y, double th) const { int d = dir[y * width_ + x]; return d && std::cos(th - (d - 1) * M_PI / 4 - 0.1) > 0; }
    using SimpleGridMap2d::isFree; using SimpleGridMap2d::isOccupied; using SimpleGridMap2d::isNoInformation;
    bool isFree(const unsigned x, const unsigned y, double th) const { return SimpleGridMap2d::isFree(x, y) && !blocked(x, y, th); }
    bool isOccupied(const unsigned x, const unsigned y, double th) const { return SimpleGridMap2d::isOccupied(x, y) || blocked(x, y, th); }
    bool isNoInformation(const unsigned x, const unsigned y, double th) const { return SimpleGridMap2d::isNoInformation(x, y) && !blocked(x, y, th); }
};
typedef DynamicDirectionalStateSpaceManager<DirectionalNode<SteeringNode<Node<Pose2d> > > > MP;
// Which of a line's cells decide: between the ideal line's cells, all within half a cell; -1: no (some cell surely bad), 1: yes (none bad), 0: depends
// on how the line is drawn. Works on the exact rule: cells nearest to the line along its longer axis; ties may go either way.
template <class Ok> int line_verdict(int x0, int y0, int x1, int y1, int skips, bool end_counts, Ok ok) {
    int dx = x1 - x0, dy = y1 - y0, L = std::max(std::abs(dx), std::abs(dy));
    bool all = true, none = false; int run = 0;
    for (int i = 1; i <= L; ++i) {
        double fx = x0 + (double)dx * i / L, fy = y0 + (double)dy * i / L;
        bool xmajor = std::abs(dx) >= std::abs(dy);
        double minor = xmajor ? fy : fx;
        int lo = (int)std::ceil(minor - 0.5 - 1e-9), hi = (int)std::floor(minor + 0.5 + 1e-9);
        int bad = 0, n = 0;
        for (int c = lo; c <= hi; ++c, ++n) if (!(xmajor ? ok((int)std::lround(fx), c) : ok(c, (int)std::lround(fy)))) ++bad;
        if (bad) all = false;
        run = bad == n ? run + 1 : 0;
        if (run > skips) none = true;
    }
    if (end_counts && !ok(x1, y1)) none = true;
    return none ? -1 : all ? 1 : 0;
}
} // namespace

WORKLOAD("C36", state_space_queries, 20000, 500000, 30,
         "the three state spaces on plain and heading-dependent maps: cell queries in the map (and around it for the padded one), line queries between random cells and points against the map's own cells; "
         "non-trivial: clear and blocked lines") {
    Rng& r = ctx.rng;
    std::pair<int, int> sz = gen_size(r, r.chance(0.1) ? 80 : 30);
    GMap g = gen_map(r, sz.first, sz.second);
    if (r.chance(0.5)) for (auto& v : g.c) if (v != FREE && r.chance(0.85)) v = FREE;      // few obstacles: long clear lines
    double res = r.pickd({0.05, 0.1, 0.13, 0.25, 0.3, 0.6, 1.0, 2.0});
    SimpleGridMap2d plain(g.w, g.h, res);
    plain.setLowerThreshold(60); plain.setUpperThreshold(190);
    for (int y = 0; y < g.h; ++y) for (int x = 0; x < g.w; ++x) plain.setValue(x, y, value_of(r, g.at(x, y), 60, 190));
    HeadingMap m(plain);
    if (r.chance(0.5)) for (int i = (int)r.range(1, 40); i > 0; --i) m.dir[r.range(0, g.w * g.h - 1)] = (int)r.range(1, 8);
    ctx.in << g.dump() << " res " << res;
    ctx.mix(g.hash());
    M2 a; MD b; MP p;
    if (r.chance(0.3)) { SimpleGridMap2d o((int)r.range(1, 9), (int)r.range(1, 9), r.pickd({0.05, 0.4, 3})); a.setMap(&o); b.setMap(&o); p.setMap(&o); }
    else if (r.chance(0.4)) {           // another map of the same size
        SimpleGridMap2d o(g.w, g.h, r.pickd({0.05, 0.1, 0.3, 0.6, 2}));
        for (int y = 0; y < g.h; ++y) for (int x = 0; x < g.w; ++x) o.setValue(x, y, r.chance(0.5) ? 0 : 255);
        a.setMap(&o); if (g.w * g.h < 1500) b.setMap(&o); p.setMap(&o);
        if (r.chance(0.5)) { p.isOccupied(0, 0, g.w - 1, g.h - 1); p.isFreeOrUnknown(0, 0, g.w - 1, g.h - 1); a.isFree(0, 0, g.w - 1, g.h - 1); }
    }
    a.setMap(&m);
    if (g.w * g.h < 1500) b.setMap(&m);
    bool use_b = g.w * g.h < 1500;
    p.setMap(&m);
    int skips = (int)(0.5 / res), clear = 0, hit = 0;
    for (int k = 0; k < 40; ++k) {
        // cells
        int x = (int)r.range(0, g.w - 1), y = (int)r.range(0, g.h - 1); double th = r.real(-4, 4);
        bool fr = m.isFree(x, y, th), oc = m.isOccupied(x, y, th);
        HeuristicNode<Pose2d> n2; n2.x = x; n2.y = y; n2.theta = th;
        MD::NodeType nd; nd.x = x; nd.y = y; nd.theta = th;
        MP::NodeType np; np.x = x; np.y = y; np.theta = th;
        ctx.check(a.isFree(x, y, th) == fr && a.isFree(&n2) == fr && a.isOccupied(x, y, th) == oc && a.isOccupied(&n2) == oc, "cell", str("grid manager's query of ", x, ",", y, " differs from the map"));
        if (use_b) ctx.check(b.isFree(x, y, th) == fr && b.isFree(&nd) == fr && b.isOccupied(x, y, th) == oc && b.isOccupied(&nd) == oc, "cell", str("directional manager's query of ", x, ",", y, " differs from the map"));
        ctx.check(p.isFree(x, y, th) == fr && p.isOccupied(x, y, th) == oc && p.isOccupied(&np) == oc && p.isFreeOrUnknown(x, y, th) == !oc, "cell", str("padded manager's query of ", x, ",", y, " differs from the map"));
        ctx.check(a.getValue(x, y) == m.getValue(x, y) && p.getValue(x, y) == m.getValue(x, y), "value", "value differs from the map's");
        ctx.check(a.getResolution() == res && p.getResolution() == res && a.getMap() == &m && p.getMap() == &m, "resolution", "resolution or map differs from the one assigned");
        {   // around the map
            int ox = (int)r.range(-32, g.w + 31), oy = (int)r.range(-32, g.h + 31);
            if (!g.in(ox, oy)) ctx.check(!p.isFree(ox, oy, th) && !p.isOccupied(ox, oy, th) && p.isFreeOrUnknown(ox, oy, th), "padding", str("cell ", ox, ",", oy, " around the map is not unknown"));
        }
        // lines in the map
        int x2 = r.chance(0.1) ? x : (int)r.range(0, g.w - 1), y2 = r.chance(0.1) ? y : (int)r.range(0, g.h - 1);
        double f1 = r.chance(0.3) ? 0 : r.real(0, 0.999), f2 = r.chance(0.3) ? 0 : r.real(0, 0.999), f3 = r.chance(0.3) ? 0 : r.real(0, 0.999), f4 = r.chance(0.3) ? 0 : r.real(0, 0.999);
        double h = std::atan2((y2 + f4) - (y + f2), (x2 + f3) - (x + f1));
        ctx.mix(((x * 100 + y) * 100 + x2) * 100 + y2);
        auto verdict = [&](int v, bool got, const char* what) {
            ctx.check(v == 0 || got == (v > 0), what, str("line ", x + f1, ",", y + f2, " to ", x2 + f3, ",", y2 + f4, (got ? " passes" : " does not pass")));
            if (v > 0 && std::max(std::abs(x2 - x), std::abs(y2 - y)) > 3) ++clear;
            if (v < 0) ++hit;
        };
        auto F = [&](int cx, int cy) { return m.isFree(cx, cy, h); };
        auto U = [&](int cx, int cy) { return m.isFree(cx, cy, h) || m.isNoInformation(cx, cy, h); };
        auto N = [&](int cx, int cy) { return !m.isOccupied(cx, cy, h); };
        verdict(line_verdict(x, y, x2, y2, 0, false, F), a.isFree(x + f1, y + f2, x2 + f3, y2 + f4), "line-free");
        verdict(line_verdict(x, y, x2, y2, 0, false, U), a.isFreeOrUnknown(x + f1, y + f2, x2 + f3, y2 + f4), "line-free-or-unknown");
        if (use_b) {
            verdict(line_verdict(x, y, x2, y2, 0, false, F), b.isFree(x + f1, y + f2, x2 + f3, y2 + f4), "directional-line-free");
            verdict(line_verdict(x, y, x2, y2, 0, false, U), b.isFreeOrUnknown(x + f1, y + f2, x2 + f3, y2 + f4), "directional-line-free-or-unknown");
        }
        verdict(line_verdict(x, y, x2, y2, skips, true, F), p.isFree(x + f1, y + f2, x2 + f3, y2 + f4), "padded-line-free");
        verdict(line_verdict(x, y, x2, y2, skips, true, N), p.isFreeOrUnknown(x + f1, y + f2, x2 + f3, y2 + f4), "padded-line-free-or-unknown");
        verdict(line_verdict(x, y, x2, y2, skips, true, N), !p.isOccupied(x + f1, y + f2, x2 + f3, y2 + f4), "padded-line-occupied");
        // lines around the map
        int sx = (int)r.range(-32, g.w + 31), sy = (int)r.range(-32, g.h + 31), ex = (int)r.range(-32, g.w + 31), ey = (int)r.range(-32, g.h + 31);
        h = std::atan2((double)ey - sy, (double)ex - sx);
        auto F2 = [&](int cx, int cy) { return g.in(cx, cy) && m.isFree(cx, cy, h); };
        auto N2 = [&](int cx, int cy) { return !g.in(cx, cy) || !m.isOccupied(cx, cy, h); };
        int v = line_verdict(sx, sy, ex, ey, skips, true, F2), vn = line_verdict(sx, sy, ex, ey, skips, true, N2);
        bool got = p.isFree(sx, sy, ex, ey), gu = p.isFreeOrUnknown(sx, sy, ex, ey), go = p.isOccupied(sx, sy, ex, ey);
        ctx.check(v == 0 || got == (v > 0), "around-line-free", str("line ", sx, ",", sy, " to ", ex, ",", ey, (got ? " passes" : " does not pass")));
        ctx.check(vn == 0 || (gu == (vn > 0) && go == (vn < 0)), "around-line-occupied", str("line ", sx, ",", sy, " to ", ex, ",", ey, ": free or unknown ", gu, ", occupied ", go));
        ctx.check(gu == !go, "complement", "a line is both occupied and free or unknown, or neither");
    }
    if (clear && hit) ctx.interesting();
    ctx.ev("clear lines", clear); ctx.ev("blocked lines", hit);
}

// ---------------------------------------------------------------- C15
namespace {
typedef HeuristicNode<Pose2d> HN;
template <class H> double hval(const Pose2d& a, const Pose2d& b, double res) {
    HN n, g; HN::init(n, a); HN::init(g, b);
    n.h = -77;
    H::compute(&n, &g, res);
    return n.h;
}
} // namespace

WORKLOAD("C15", closed_forms, 400000, 8000000, 40,
         "random position triples and resolutions: each closed form against its formula, symmetry, triangle inequality, maximum combination in both orders; non-trivial: three different positions") {
    Rng& r = ctx.rng;
    auto P = [&] {
        if (r.chance(0.5)) return Pose2d((double)r.range(-40, 400), (double)r.range(-40, 400), r.real(-4, 4));
        return Pose2d(r.real(-50, 500), r.real(-50, 500), r.real(-4, 4));
    };
    Pose2d a = P(), b = P(), c = P();
    if (r.chance(0.1)) b = a;
    if (r.chance(0.1)) b.x = a.x;
    if (r.chance(0.1)) b.y = a.y;
    double res = r.pickd({0.01, 0.05, 0.1, 1.0, 3.7});
    ctx.in << a.x << "," << a.y << " " << b.x << "," << b.y << " " << c.x << "," << c.y << " res " << res;
    ctx.mixd(a.x); ctx.mixd(b.y); ctx.mixd(c.x); ctx.mixd(res);
    double dx = std::fabs(a.x - b.x), dy = std::fabs(a.y - b.y), tol = 1e-9 * (1 + dx + dy);
    double l1 = res * (dx + dy), l2 = res * std::sqrt(dx * dx + dy * dy), li = res * (dx > dy ? dx : dy);
    auto eq = [&](double x, double y) { return std::fabs(x - y) <= tol; };
    ctx.check(eq(hval<HeuristicL1>(a, b, res), l1), "l1", str("L1 gives ", hval<HeuristicL1>(a, b, res), " expected ", l1));
    ctx.check(eq(hval<HeuristicL2>(a, b, res), l2), "l2", str("L2 gives ", hval<HeuristicL2>(a, b, res), " expected ", l2));
    ctx.check(eq(hval<HeuristicLInf>(a, b, res), li), "linf", str("LInf gives ", hval<HeuristicLInf>(a, b, res), " expected ", li));
    { Node<Pose2d> n, g2; Node<Pose2d>::init(n, a); Node<Pose2d>::init(g2, b); n.distance = 5; NoHeuristic::compute(&n, &g2, res);
      ctx.check(n.getTotalCost() == 5, "none", "no heuristic changes the cost"); }
    { typedef DHeuristicNode<Pose2d> DN; DN n, g2; DN::init(n, a); DN::init(g2, b); DHeuristicL2::compute(&n, &g2, res); ctx.check(eq(n.h, l2), "dl2", "D* L2 differs from L2"); }
    double m1 = hval<MaxHeuristic<HeuristicL1, HeuristicL2> >(a, b, res), m2 = hval<MaxHeuristic<HeuristicLInf, HeuristicL1> >(a, b, res),
           m3 = hval<MaxHeuristic<HeuristicL2, HeuristicLInf> >(a, b, res), m4 = hval<MaxHeuristic<HeuristicLInf, HeuristicL2> >(a, b, res),
           m5 = hval<MaxHeuristic<MaxHeuristic<HeuristicLInf, HeuristicL1>, HeuristicL2> >(a, b, res);
    ctx.check(eq(m1, std::max(l1, l2)) && eq(m2, std::max(li, l1)) && eq(m3, std::max(l2, li)) && eq(m4, std::max(l2, li)) && eq(m5, std::max(li, std::max(l1, l2))),
              "max", "combined heuristic is not the maximum of its parts");
    auto metric = [&](const char* n, double (*h)(const Pose2d&, const Pose2d&, double)) {
        double ab = h(a, b, res), ba = h(b, a, res), ac = h(a, c, res), cb = h(c, b, res);
        ctx.check(ab >= 0 && h(a, a, res) == 0, std::string(n) + "-sign", "heuristic negative, or not zero at the goal");
        ctx.check(eq(ab, ba), std::string(n) + "-symmetry", "heuristic is not symmetric");
        ctx.check(ab <= ac + cb + 1e-6, std::string(n) + "-triangle", "heuristic violates the triangle inequality");
    };
    metric("l1", hval<HeuristicL1>); metric("l2", hval<HeuristicL2>); metric("linf", hval<HeuristicLInf>); metric("max", hval<MaxHeuristic<HeuristicL2, HeuristicLInf> >);
    // a node's estimate does not depend on the one it had before
    { HN n, ga, gb; HN::init(n, a); HN::init(ga, b); HN::init(gb, c);
      int order = (int)r.range(0, 3);
      for (int k = 0; k < 3; ++k) {
          HN& g = k == 1 ? ga : gb; const Pose2d& gp = k == 1 ? b : c;
          double ex = std::fabs(a.x - gp.x), ey = std::fabs(a.y - gp.y), f1 = res * (ex + ey), f2 = res * std::sqrt(ex * ex + ey * ey), fi = res * std::max(ex, ey), want;
          if (order == 0) { MaxHeuristic<HeuristicL2, HeuristicLInf>::compute(&n, &g, res); want = std::max(f2, fi); }
          else if (order == 1) { MaxHeuristic<MaxHeuristic<HeuristicLInf, HeuristicL2>, HeuristicL1>::compute(&n, &g, res); want = f1; }
          else if (order == 2) { HeuristicL2::compute(&n, &g, res); want = f2; }
          else { if (k % 2) { HeuristicLInf::compute(&n, &g, res); want = fi; } else { HeuristicL1::compute(&n, &g, res); want = f1; } }
          ctx.check(std::fabs(n.h - want) <= 1e-9 * (1 + ex + ey), "recompute", str("a node whose estimate is computed again has ", n.h, ", not ", want));
          ctx.ev("recomputed");
      } }
    // total cost of a node is its distance plus heuristic
    HN n, g2; HN::init(n, a); HN::init(g2, b); n.distance = r.real(0, 100); HeuristicL2::compute(&n, &g2, res);
    ctx.check(eq(n.getTotalCost(), n.distance + n.h), "total", "total cost is not distance plus heuristic");
    if ((dx || dy) && (a.x != c.x || a.y != c.y)) ctx.interesting();
}
