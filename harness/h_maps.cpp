// Grid maps: C22 (coordinates), C23 (classification), C24 (areas), C25 (rasteriser), C26 (footprints).
#include "maps.hpp"
#include <cslibs_path_planning/common/SimpleGridMap2d.h>
#include <cslibs_path_planning/common/RotatedGridMap2d.h>
#include <cslibs_path_planning/common/CollisionGridMap2d.h>
#include <cslibs_path_planning/common/Bresenham2d.h>
#include <cslibs_path_planning/common/MapMath.h>
#include <memory>

using namespace vf;
using namespace lib_path;

namespace {
const double BORDER = 1e-6; // cells: closer points are not judged

double frac_dist(double v) { return std::fabs(v - std::floor(v + 0.5)); }

// a coordinate in cells: inside, near borders, or outside of [0,n]
double gen_coord(Rng& r, int n) {
    switch (r.range(0, 9)) {
    case 0: return r.real(-1, 0);
    case 1: return r.real(n, n + 1.0);
    case 2: return r.real(-1e3, 0);
    case 3: return n + r.real(0, 1e3);
    case 4: return r.chance(0.5) ? -r.real(1e9, 1e13) : r.real(1e9, 1e13);
    case 5: return (r.chance(0.5) ? 0 : n) + (r.chance(0.5) ? 1 : -1) * r.pickd({1e-5, 1e-4, 1e-3, 0.01});
    case 6: return r.range(0, n) + (r.chance(0.5) ? 1 : -1) * r.pickd({1e-5, 1e-4, 1e-3, 0.01});
    default: return r.real(0, n);
    }
}

std::unique_ptr<SimpleGridMap2d> small_map(Rng& r, GMap& g, int maxside) {
    std::pair<int, int> sz = gen_size(r, maxside);
    g = gen_map(r, sz.first, sz.second);
    std::unique_ptr<SimpleGridMap2d> m(new SimpleGridMap2d(g.w, g.h, r.pickd({0.05, 0.1, 0.25, 1.0, 2.0})));
    if (r.chance(0.7)) m->setOrigin(Point2d(r.real(-50, 50), r.real(-50, 50)));
    for (int y = 0; y < g.h; ++y) for (int x = 0; x < g.w; ++x) m->setValue(x, y, value_of(r, g.at(x, y), 50, 200));
    return m;
}
} // namespace

WORKLOAD("C22", coords_simple, 20000, 600000, 100,
         "random map geometry (1-500 cells per side, resolutions 0.01-5, origins of both signs) and 20 points inside, at, just outside and far outside "
         "the borders, compared with the exact cell geometry; non-trivial: points on both sides of the border") {
    Rng& r = ctx.rng;
    int w = (int)r.range(1, r.chance(0.5) ? 10 : 500), h = (int)r.range(1, r.chance(0.5) ? 10 : 500);
    if (r.chance(0.01)) (r.chance(0.5) ? w : h) = (int)r.range(500, 70000);
    bool exact = r.chance(0.3); // dyadic geometry: border points are judged exactly
    double res = exact ? r.pickd({0.25, 0.5, 1, 2}) : (r.chance(0.3) ? r.real(0.01, 5) : r.pickd({0.02, 0.05, 0.1, 0.3}));
    double ox = 0, oy = 0;
    if (exact) { ox = (double)r.range(-40, 40) / 2; oy = (double)r.range(-40, 40) / 2; }
    else if (r.chance(0.8)) { ox = r.real(-100, 100); oy = r.real(-100, 100); }
    // the same geometry, reached in different ways
    SimpleGridMap2d m(w, h, r.chance(0.5) ? res : 77.0);
    int way = w * h < 5000000 ? (int)r.range(0, 7) : 0;
    if (way >= 2) {
        m = SimpleGridMap2d((int)r.range(1, 20), (int)r.range(1, 20), 3.0);
        if (r.chance(0.5)) m.setOrigin(Point2d(r.real(-9, 9), r.real(-9, 9)));
        if (way == 2) { m.setResolution(res); m.setOrigin(Point2d(ox, oy)); m.set(std::vector<uint8_t>((size_t)w * h, 3), w, h); }
        else m.set(std::vector<uint8_t>((size_t)w * h, 3), w, h);
    }
    if (way != 2) { m.setResolution(res); m.setOrigin(Point2d(ox, oy)); }
    if (way == 4) { SimpleGridMap2d c(m); m = SimpleGridMap2d(2, 3, 9); m = c; }
    ctx.in << "way " << way << " " << w << "x" << h << " res " << res << " origin " << ox << "," << oy;
    ctx.mix(w); ctx.mix(h); ctx.mixd(res); ctx.mixd(ox); ctx.mixd(oy);
    ctx.check(m.getWidth() == (unsigned)w && m.getHeight() == (unsigned)h && m.getResolution() == res, "geometry", "width/height/resolution not as set");
    ctx.check(m.getOrigin().x == ox && m.getOrigin().y == oy, "origin", "origin not as set");
    ctx.check(m.getRotation() == 0.0, "rotation", "unrotated map reports a rotation");
    const GridMap2d& gm = m;
    int in = 0, out = 0;
    for (int k = 0; k < 20; ++k) {
        double cx = gen_coord(r, w), cy = gen_coord(r, h);
        if (exact && k % 2) { cx = (double)r.range(-1, w + 1); cy = r.range(0, 1) ? (double)r.range(-1, h + 1) : r.range(0, 2 * h) / 2.0; }
        double px = cx * res + ox, py = cy * res + oy;
        cx = (px - ox) / res; cy = (py - oy) / res;
        bool judged = exact ? true : frac_dist(cx) > BORDER * (1 + std::fabs(cx) * 1e-6) && frac_dist(cy) > BORDER * (1 + std::fabs(cy) * 1e-6);
        bool inside = cx >= 0 && cy >= 0 && cx < w && cy < h;
        unsigned x = 0, y = 0, x2 = 0, y2 = 0, x3 = 0, y3 = 0;
        double sx = 0, sy = 0, fx, fy;
        bool a = m.point2cell(px, py, x, y), b = gm.isInMap(px, py), c = m.point2cellSubPixel(px, py, sx, sy);
        bool d = gm.point2cell(Point2d(px, py), x2, y2), e = gm.pose2cell(Pose2d(px, py, 1.0), x3, y3), f = gm.isInMap(Point2d(px, py));
        pos2map(px, py, fx, fy, m);
        Pose2d pm = pos2map(Pose2d(px, py, 0.7), m), back = map2pos(pm, m);
        double bx, by; map2pos(fx, fy, bx, by, m);
        ctx.check(std::fabs(fx - cx) <= 1e-9 * (1 + std::fabs(cx)) && std::fabs(fy - cy) <= 1e-9 * (1 + std::fabs(cy)), "pos2map", str("pos2map gives ", fx, ",", fy, " instead of ", cx, ",", cy));
        ctx.check(pm.x == fx && pm.y == fy && pm.theta == 0.7 && back.theta == 0.7, "pos2map-pose", "pose conversion differs from point conversion or loses the heading");
        ctx.check(std::fabs(back.x - px) <= 1e-9 * (1 + std::fabs(px)) && std::fabs(bx - px) <= 1e-9 * (1 + std::fabs(px)) && std::fabs(back.y - py) <= 1e-9 * (1 + std::fabs(py)) && std::fabs(by - py) <= 1e-9 * (1 + std::fabs(py)),
                  "map2pos", "map2pos does not invert pos2map");
        if (!judged) continue;
        ctx.ev("points_judged");
        std::string at = str("point ", px, ",", py, " (cell coordinates ", cx, ",", cy, "): ");
        ctx.check(a == inside && d == inside && e == inside, "point2cell-bounds", at + str("conversion reports ", a, d, e, ", inside is ", inside));
        ctx.check(b == inside && f == inside, "isInMap-point", at + str("in-map test says ", b, f, ", inside is ", inside));
        ctx.check(c == inside, "subpixel-bounds", at + str("subpixel conversion reports ", c, ", inside is ", inside));
        if (inside) {
            ++in;
            ctx.check(x == (unsigned)std::floor(cx) && y == (unsigned)std::floor(cy) && x2 == x && y2 == y && x3 == x && y3 == y, "point2cell", at + str("converted to cell ", x, ",", y));
            ctx.check(std::fabs(sx - cx) < 1e-9 * (1 + cx) && std::fabs(sy - cy) < 1e-9 * (1 + cy), "subpixel", at + str("subpixel conversion gives ", sx, ",", sy));
            ctx.check(gm.isInMap((int)x, (int)y), "isInMap-cell", at + "cell of an in-map point is not in the map");
        } else ++out;
    }
    for (int k = 0; k < 10; ++k) {
        int x = (int)r.range(-2, w + 1), y = (int)r.range(-2, h + 1);
        if (r.chance(0.1)) x = r.chance(0.5) ? INT_MIN : INT_MAX;
        bool inside = x >= 0 && y >= 0 && x < w && y < h;
        ctx.check(gm.isInMap(x, y) == inside, "isInMap-cell", str("cell ", x, ",", y, ": isInMap is not ", inside));
        if (!inside) continue;
        double px, py, qx, qy; float hx, hy; Point2d p; unsigned bx, by;
        m.cell2point(x, y, px, py); gm.cell2point(x, y, p); m.cell2point(x, y, hx, hy);
        m.cell2pointSubPixel(x + 0.5, y + 0.5, qx, qy);
        ctx.check(std::fabs(px - (ox + (x + 0.5) * res)) < 1e-9 * (1 + std::fabs(px)) && std::fabs(py - (oy + (y + 0.5) * res)) < 1e-9 * (1 + std::fabs(py)), "cell2point",
                  str("cell ", x, ",", y, " converts to ", px, ",", py));
        ctx.check(std::fabs(p.x - px) < 1e-9 * (1 + std::fabs(px)) && std::fabs(p.y - py) < 1e-9 * (1 + std::fabs(py)) && std::fabs(hx - px) < 1e-4 * (1 + std::fabs(px)) && std::fabs(hy - py) < 1e-4 * (1 + std::fabs(py)), "cell2point-overloads", "overloads disagree");
        ctx.check(std::fabs(qx - px) < 1e-9 * (1 + std::fabs(px)) && std::fabs(qy - py) < 1e-9 * (1 + std::fabs(py)), "cell2pointSubPixel", "subpixel conversion of the centre differs");
        bool ok = m.point2cell(px, py, bx, by);
        ctx.check(ok && (int)bx == x && (int)by == y, "round-trip", str("cell ", x, ",", y, " -> point -> cell ", ok, " ", bx, ",", by));
        ctx.ev("cell_round_trips");
    }
    if (in && out) ctx.interesting();
}

WORKLOAD("C22", coords_rotated, 15000, 500000, 60,
         "rotated map (any yaw, origin, resolution; also through the collision map class): cells converted to points and back, random points compared with the "
         "independently rotated geometry; non-trivial: yaw not a multiple of 90 degrees and points on both sides of the border") {
    Rng& r = ctx.rng;
    int w = (int)r.range(1, r.chance(0.5) ? 10 : 200), h = (int)r.range(1, r.chance(0.5) ? 10 : 200);
    if (r.chance(0.01)) (r.chance(0.5) ? w : h) = (int)r.range(200, 5000);
    double res = r.chance(0.3) ? r.real(0.01, 5) : r.pickd({0.05, 0.1, 1.0});
    double yaw = r.chance(0.1) ? 0 : (r.chance(0.2) ? r.range(-4, 4) * M_PI / 2 : r.real(-7, 7));
    double ox = r.chance(0.2) ? 0 : r.real(-50, 50), oy = r.chance(0.2) ? 0 : r.real(-50, 50);
    int way = (int)r.range(0, 5);
    RotatedGridMap2d m(w, h, yaw, res);
    if (way == 1) m.set(std::vector<uint8_t>((size_t)w * h, 7), w, h, yaw);
    else if (way == 2) {                        // another geometry first
        m = RotatedGridMap2d((int)r.range(1, 30), (int)r.range(1, 30), r.real(-3, 3), 2.0);
        m.setOrigin(Point2d(r.real(-5, 5), r.real(-5, 5)));
        m.set(std::vector<uint8_t>((size_t)w * h, 7), w, h, yaw);
        m.setResolution(res);
    } else if (way == 3) {
        m = RotatedGridMap2d((int)r.range(1, 30), (int)r.range(1, 30), yaw, res);
        m.SimpleGridMap2d::set(std::vector<uint8_t>((size_t)w * h, 7), w, h); // keeps the yaw
    }
    m.setOrigin(Point2d(ox, oy));
    if (way == 4) { RotatedGridMap2d c(m); m = RotatedGridMap2d(2, 3, 0.5, 9); m = c; }
    const GridMap2d& gm = m;
    ctx.in << "way " << way << " " << w << "x" << h << " res " << res << " yaw " << yaw << " origin " << ox << "," << oy;
    ctx.mix(w); ctx.mix(h); ctx.mixd(res); ctx.mixd(ox); ctx.mixd(yaw);
    ctx.check(m.getRotation() == yaw, "rotation", "rotation not as set");
    double c = std::cos(yaw), s = std::sin(yaw), tol = 1e-9 * (100 + res * (w + h));
    int in = 0, out = 0;
    auto topoint = [&](double cx, double cy, double& px, double& py) {
        double u = cx * res, v = cy * res; // the origin is given in the (unrotated) map frame
        px = c * u - s * v + ox; py = s * u + c * v + oy;
    };
    for (int k = 0; k < 15; ++k) {
        double cx = gen_coord(r, w), cy = gen_coord(r, h), px, py;
        if (std::fabs(cx) > 1e6) cx = cx > 0 ? 1e6 + 0.5 : -1e6 + 0.5;
        if (std::fabs(cy) > 1e6) cy = cy > 0 ? 1e6 + 0.5 : -1e6 + 0.5;
        topoint(cx, cy, px, py);
        if (frac_dist(cx) <= BORDER * 10 || frac_dist(cy) <= BORDER * 10) continue;
        bool inside = cx > 0 && cy > 0 && cx < w && cy < h;
        unsigned x = 0, y = 0;
        std::string at = str("point ", px, ",", py, " (cell coordinates ", cx, ",", cy, "): ");
        bool a = gm.point2cell(px, py, x, y), b = gm.isInMap(px, py);
        ctx.ev("points_judged");
        ctx.check(a == inside, "rot-point2cell-bounds", at + str("conversion reports ", a, ", inside is ", inside));
        ctx.check(b == inside, "rot-isInMap-point", at + str("in-map test says ", b, ", inside is ", inside));
        double sx = 0, sy = 0;
        bool sp = m.point2cellSubPixel(px, py, sx, sy);
        ctx.check(sp == inside, "rot-subpixel-bounds", at + str("subpixel conversion reports ", sp));
        if (inside) {
            ++in;
            ctx.check((int)x == (int)std::floor(cx) && (int)y == (int)std::floor(cy), "rot-point2cell", at + str("converted to ", x, ",", y));
            ctx.check(std::fabs(sx - cx) < 1e-6 && std::fabs(sy - cy) < 1e-6, "rot-subpixel", at + str("subpixel conversion gives ", sx, ",", sy));
            double bx, by;
            m.cell2pointSubPixel(cx, cy, bx, by);
            ctx.check(std::fabs(bx - px) < tol && std::fabs(by - py) < tol, "rot-cell2pointSubPixel", at + str("converted back to ", bx, ",", by));
        } else ++out;
    }
    for (int k = 0; k < 8; ++k) {
        int x = (int)r.range(0, w - 1), y = (int)r.range(0, h - 1);
        double px, py, ex, ey; float hx, hy; unsigned bx = 0, by = 0;
        m.cell2point(x, y, px, py); m.cell2point(x, y, hx, hy);
        topoint(x + 0.5, y + 0.5, ex, ey);
        ctx.check(std::fabs(px - ex) < tol && std::fabs(py - ey) < tol, "rot-cell2point", str("cell ", x, ",", y, " converts to ", px, ",", py, " instead of ", ex, ",", ey));
        ctx.check(std::fabs(hx - px) < 1e-4 * (1 + std::fabs(px) + w * res + 100) && std::fabs(hy - py) < 1e-4 * (1 + std::fabs(py) + h * res + 100), "rot-cell2point-float", "float overload disagrees");
        bool ok = gm.point2cell(px, py, bx, by);
        ctx.check(ok && (int)bx == x && (int)by == y, "rot-round-trip", str("cell ", x, ",", y, " -> point -> cell ", ok, " ", bx, ",", by));
        ctx.ev("cell_round_trips");
        ctx.check(gm.isInMap(x, y) && !gm.isInMap(-1, y) && !gm.isInMap(x, h) && !gm.isInMap(w, y) && !gm.isInMap(x, -1), "rot-isInMap-cell", "cell bounds wrong");
    }
    if (in && out && frac_dist(yaw / (M_PI / 2)) > 0.01) ctx.interesting();
}

WORKLOAD("C23", classify, 6000, 200000, 60,
         "history of cell writes, refills, data and threshold changes on one map, a model recomputing every cell class after each step; "
         "non-trivial: all three classes were seen") {
    Rng& r = ctx.rng;
    int most = ctx.idx % 1500 == 7 ? 400 : 12, w = (int)r.range(most > 12 ? 200 : 1, most), h = (int)r.range(most > 12 ? 200 : 1, most), kind = (int)r.range(0, 2);
    double res = r.pickd({0.1, 1.0});
    std::unique_ptr<SimpleGridMap2d> m;
    double yaw = 0;
    if (kind == 0) m.reset(new SimpleGridMap2d(w, h, res));
    else if (kind == 1) m.reset(new RotatedGridMap2d(w, h, yaw = r.real(-4, 4), res));
    else m.reset(new CollisionGridMap2d(w, h, yaw = r.real(-4, 4), res, 0.4, -0.4, 0.4));
    const GridMap2d* gm = m.get();
    std::vector<uint8_t> v((size_t)w * h, 0);
    int lo = 50, up = 200, ni = -1;
    long seen[3] = {0, 0, 0};
    int n = (int)r.range(3, most > 12 ? 5 : 12);
    ctx.mix(ctx.idx);
    for (int i = 0; i < n; ++i) {
        switch (i == 0 ? 7 : r.range(0, 6)) {
        case 0: case 1: { int k = (int)r.range(1, w * h); for (int j = 0; j < k; ++j) { int x = (int)r.range(0, w - 1), y = (int)r.range(0, h - 1); uint8_t q = (uint8_t)r.range(0, 255); m->setValue(x, y, q); v[(size_t)y * w + x] = q; } ctx.in << " writes"; ctx.ev("cell_writes", k); break; }
        case 2: { uint8_t q = (uint8_t)r.range(0, 255); m->set(q); v.assign(v.size(), q); ctx.in << " fill=" << (int)q; break; }
        case 3: { w = (int)r.range(most > 12 ? 200 : 1, most); h = (int)r.range(most > 12 ? 200 : 1, most); v.assign((size_t)w * h, 0); for (auto& q : v) q = (uint8_t)r.range(0, 255); std::vector<uint8_t> d = v; if (r.chance(0.3)) d.resize(d.size() + 5, 9); m->set(d, w, h); ctx.in << " data " << w << "x" << h; ctx.ev("data_replacements"); break; }
        case 4: lo = (int)r.range(0, 255); m->setLowerThreshold(lo); ctx.in << " lower=" << lo; break;
        case 5: up = (int)r.range(0, 255); m->setUpperThreshold(up); ctx.in << " upper=" << up; break;
        case 6: ni = r.chance(0.3) ? -1 : (int)r.range(0, 255); m->setNoInformationValue(ni); ctx.in << " noinfo=" << ni; break;
        default: break;
        }
        ctx.check(m->getWidth() == (unsigned)w && m->getHeight() == (unsigned)h, "size", "size not as set");
        for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) {
            uint8_t q = v[(size_t)y * w + x];
            ctx.check(gm->getValue(x, y) == q && m->getData()[(size_t)y * w + x] == q, "value", str("cell ", x, ",", y, " holds ", (int)gm->getValue(x, y), " instead of ", (int)q));
            bool no = ni != -1 && q == ni, f = !no && q <= lo, o = !no && q >= up, u = no || (q > lo && q < up);
            ctx.check(gm->isFree(x, y) == f, "free", str("value ", (int)q, " lower ", lo, " noinfo ", ni, ": free is not ", f));
            ctx.check(gm->isOccupied(x, y) == o, "occupied", str("value ", (int)q, " upper ", up, " noinfo ", ni, ": occupied is not ", o));
            ctx.check(gm->isNoInformation(x, y) == u, "noinfo", str("value ", (int)q, " thresholds ", lo, ",", up, " noinfo ", ni, ": no-information is not ", u));
            if (kind != 2) ctx.check(gm->isFree(x, y, 1.0) == f && gm->isOccupied(x, y, 2.0) == o && gm->isNoInformation(x, y, -1.0) == u, "heading-query", "query with heading differs from the cell query");
            Point2d p; gm->cell2point(x, y, p);
            ctx.check(gm->isFree(p) == f && gm->isOccupied(p) == o && gm->isNoInformation(p) == u, "point-query", str("point query at cell ", x, ",", y, " differs from the cell query"));
            seen[0] += f; seen[1] += u; seen[2] += o;
        }
        ctx.ev("cells_classified", (long)w * h);
        // points outside of the map are in no class
        for (int k = 0; k < 2; ++k) {
            double ex = r.chance(0.5) ? -r.real(0.05, 3) : w + r.real(0.05, 3), ey = r.real(0, h);
            if (r.chance(0.5)) { ex = r.real(0, w); ey = r.chance(0.5) ? -r.real(0.05, 3) : h + r.real(0.05, 3); }
            ex *= res; ey *= res;
            Point2d p(std::cos(yaw) * ex - std::sin(yaw) * ey, std::sin(yaw) * ex + std::cos(yaw) * ey);
            ctx.check(!gm->isFree(p) && !gm->isOccupied(p) && !gm->isNoInformation(p), "point-outside", str("point ", p.x, ",", p.y, " outside of the map is classified"));
        }
    }
    if (seen[0] && seen[1] && seen[2]) ctx.interesting();
}

namespace {
// Cells an area must / may contain.
struct Raster { std::set<std::pair<int, int> > must, may; };

std::set<std::pair<int, int> > visit(Ctx& ctx, MapArea2d& a, const char* what, size_t limit) {
    std::set<std::pair<int, int> > cells;
    size_t n = 0;
    a.begin();
    while (a.next()) {
        int x, y;
        a.getCell(x, y);
        ctx.check(cells.insert(std::make_pair(x, y)).second, str(what, "-repeat"), str("cell ", x, ",", y, " visited twice"));
        ctx.check(++n < limit, str(what, "-endless"), "iteration does not end");
    }
    ctx.ev("area_cells_visited", (long)n);
    return cells;
}

void compare(Ctx& ctx, const std::set<std::pair<int, int> >& got, const Raster& want, const char* what) {
    for (auto& c : want.must) ctx.check(got.count(c) > 0, str(what, "-missing"), str("cell ", c.first, ",", c.second, " of the area is not visited"));
    for (auto& c : got) ctx.check(want.may.count(c) > 0, str(what, "-extra"), str("cell ", c.first, ",", c.second, " visited but not part of the area"));
}

void area_effects(Ctx& ctx, SimpleGridMap2d& m, GMap& g, MapArea2d& a, const std::set<std::pair<int, int> >& cells, const char* what) {
    bool allfree = true, anyocc = false, allno = true; long in = 0;
    for (auto& c : cells) if (g.in(c.first, c.second)) {
        ++in;
        allfree &= g.at(c.first, c.second) == FREE; anyocc |= g.at(c.first, c.second) == OCC; allno &= g.at(c.first, c.second) == UNKNOWN;
    }
    ctx.check(m.isAreaFree(a) == allfree, str(what, "-isAreaFree"), str("area free query is not ", allfree));
    ctx.check(m.isAreaOccupied(a) == anyocc, str(what, "-isAreaOccupied"), str("area occupied query is not ", anyocc));
    if (in) ctx.check(m.isAreaNoInformation(a) == allno, str(what, "-isAreaNoInformation"), str("area without-information query is not ", allno));
    std::vector<uint8_t> before(m.getData(), m.getData() + (size_t)g.w * g.h);
    uint8_t v = (uint8_t)ctx.rng.range(0, 255);
    bool own = ctx.rng.chance(0.3);
    if (own) { m.setAreaValue(a); a.begin(); if (a.next()) v = a.getValue(); } else m.setAreaValue(a, v);
    for (int y = 0; y < g.h; ++y) for (int x = 0; x < g.w; ++x) {
        bool inside = cells.count(std::make_pair(x, y)) > 0;
        uint8_t want = inside ? v : before[(size_t)y * g.w + x];
        ctx.check(m.getValue(x, y) == want, str(what, inside ? "-not-written" : "-overwrite"), str("cell ", x, ",", y, inside ? " of the area was not written" : " outside of the area was written"));
    }
    for (int y = 0; y < g.h; ++y) for (int x = 0; x < g.w; ++x) m.setValue(x, y, before[(size_t)y * g.w + x]);
    ctx.ev("area_writes_compared");
}
} // namespace

WORKLOAD("C24", circle_area, 12000, 400000, 60,
         "circular area and buffer on a random map (centre anywhere in the map, radius from below one cell to beyond the map, re-centred and re-initialised): "
         "visited cells against the raster disc, area queries and writes against the cells, save/overwrite/restore; non-trivial: disc of at least 5 cells partly in the map") {
    Rng& r = ctx.rng;
    GMap g;
    int big = ctx.idx % 1500 == 57 ? 30 : ctx.idx % 200 == 7 ? 12 : 1;
    std::unique_ptr<SimpleGridMap2d> m = small_map(r, g, 24 * big);
    double res = m->getResolution();
    ctx.mix(g.hash());
    auto point = [&](int cx, int cy) { return Point2d(m->getOrigin().x + (cx + r.real(0.05, 0.95)) * res, m->getOrigin().y + (cy + r.real(0.05, 0.95)) * res); };
    int cx = (int)r.range(0, g.w - 1), cy = (int)r.range(0, g.h - 1);
    double rad = res * (r.chance(0.2) ? r.real(0.05, 1.5) : big * r.real(0.5, 10));
    if (r.chance(0.1)) rad = res * (double)r.range(1, 6);
    Point2d c = point(cx, cy);
    std::unique_ptr<CircleArea> a;
    bool buffer = r.chance(0.5);
    CircleBuffer* buf = 0;
    if (buffer) a.reset(buf = new CircleBuffer(c, rad, m.get())); else a.reset(new CircleArea(c, rad, m.get()));
    ctx.in << "map " << g.dump() << " centre " << cx << "," << cy << " radius " << rad / res << " cells buffer " << buffer;
    int rounds = (int)r.range(1, 3);
    for (int k = 0; k < rounds; ++k) {
        if (k && r.chance(0.5)) { cx = (int)r.range(0, g.w - 1); cy = (int)r.range(0, g.h - 1); a->setCenter(point(cx, cy), m.get()); ctx.in << " recentre " << cx << "," << cy; }
        else if (k) { cx = (int)r.range(0, g.w - 1); cy = (int)r.range(0, g.h - 1); rad = res * big * r.real(0.3, 8); a->init(point(cx, cy), rad, m.get()); ctx.in << " init " << cx << "," << cy << " r " << rad / res; }
        Raster want;
        int R = rad <= res ? 0 : (int)(rad / res + 1e-9);
        int Rlo = rad <= res ? 0 : (int)(rad / res - 1e-9);
        for (int dy = -R; dy <= R; ++dy) for (int dx = -R; dx <= R; ++dx) {
            double d = std::hypot(dx, dy);
            std::pair<int, int> q(cx + dx, cy + dy);
            if (d <= Rlo + 1e-9) want.must.insert(q);
            if (std::max(std::abs(dx), std::abs(dy)) <= R && d <= R + 1.0 + 0.13 * R) want.may.insert(q);
        }
        std::set<std::pair<int, int> > cells = visit(ctx, *a, "circle", 1000000);
        compare(ctx, cells, want, "circle");
        bool partly = false;
        for (auto& q : cells) if (g.in(q.first, q.second)) partly = true;
        if (cells.size() >= 5 && partly) ctx.interesting();
        if (!buf) area_effects(ctx, *m, g, *a, cells, "circle");
        else {
            std::vector<uint8_t> before(m->getData(), m->getData() + (size_t)g.w * g.h);
            m->getAreaValues(*buf);
            size_t n = 0;
            for (buf->begin(); buf->next(); ++n) { int x, y; buf->getCell(x, y); if (g.in(x, y)) ctx.check(buf->getValue() == m->getValue(x, y), "buffer-value", str("buffered value of cell ", x, ",", y, " differs from the map")); }
            ctx.check(n == cells.size(), "buffer-count", "buffer visits another number of cells than the area");
            int k2 = (int)r.range(1, 40);
            for (int j = 0; j < k2; ++j) { // damage only cells inside the area
                auto it = cells.begin(); std::advance(it, r.next() % cells.size());
                if (g.in(it->first, it->second)) m->setValue(it->first, it->second, (uint8_t)r.range(0, 255));
            }
            if (r.chance(0.5)) { CircleArea w(point(cx, cy), rad, m.get()); m->setAreaValue(w, 99); }
            m->setAreaValue(*buf);
            for (int y = 0; y < g.h; ++y) for (int x = 0; x < g.w; ++x)
                ctx.check(m->getValue(x, y) == before[(size_t)y * g.w + x], "buffer-restore", str("cell ", x, ",", y, " not restored from the buffer"));
            ctx.ev("buffers_restored");
        }
    }
    // outside centre or no radius: empty area
    CircleArea e(Point2d(m->getOrigin().x - 2 * res, m->getOrigin().y), rad, m.get()), z(point(cx, cy), 0, m.get());
    e.begin(); z.begin();
    ctx.check(!e.next(), "circle-outside", "area around a centre outside of the map is not empty");
    ctx.check(!z.next(), "circle-zero", "area of radius zero is not empty");
}

WORKLOAD("C24", line_area, 12000, 400000, 40,
         "line area between two random cells of a random map, iterated, queried, written, re-set; non-trivial: at least 4 cells") {
    Rng& r = ctx.rng;
    GMap g;
    std::unique_ptr<SimpleGridMap2d> m = small_map(r, g, ctx.idx % 200 == 7 ? 400 : 24);
    bool wide = ctx.idx % 1500 == 11;
    if (wide) {
        g = wide_map(r);
        m.reset(new SimpleGridMap2d(g.w, g.h, r.pickd({0.25, 1.0})));
        for (int y = 0; y < g.h; ++y) for (int x = 0; x < g.w; ++x) m->setValue(x, y, value_of(r, g.at(x, y), 50, 200));
        ctx.ev("wide_maps");
    }
    double res = m->getResolution();
    ctx.mix(g.hash());
    auto point = [&](int cx, int cy) { return Point2d(m->getOrigin().x + (cx + r.real(0.05, 0.95)) * res, m->getOrigin().y + (cy + r.real(0.05, 0.95)) * res); };
    std::unique_ptr<LineArea> a;
    int rounds = wide ? 1 : (int)r.range(1, 3);
    for (int k = 0; k < rounds; ++k) {
        int x0 = (int)r.range(0, g.w - 1), y0 = (int)r.range(0, g.h - 1), x1 = r.chance(0.1) ? x0 : (int)r.range(0, g.w - 1), y1 = r.chance(0.1) ? y0 : (int)r.range(0, g.h - 1);
        ctx.in << "map " << g.dump() << " line " << x0 << "," << y0 << "-" << x1 << "," << y1 << " ";
        ctx.mix(x0 * 64 + y0); ctx.mix(x1 * 64 + y1);
        if (!a) a.reset(new LineArea(point(x0, y0), point(x1, y1), m.get())); else a->set(point(x0, y0), point(x1, y1), m.get());
        std::set<std::pair<int, int> > cells = visit(ctx, *a, "line", 100000);
        Raster want;
        int dx = x1 - x0, dy = y1 - y0, L = std::max(std::abs(dx), std::abs(dy));
        want.must.insert(std::make_pair(x0, y0)); want.must.insert(std::make_pair(x1, y1));
        for (int y = std::min(y0, y1); y <= std::max(y0, y1); ++y) for (int x = std::min(x0, x1); x <= std::max(x0, x1); ++x) {
            // distance to the ideal line along the minor axis
            double d = L == 0 ? 0 : (std::abs(dx) >= std::abs(dy) ? std::fabs(y - (y0 + (double)(x - x0) * dy / dx)) : std::fabs(x - (x0 + (double)(y - y0) * dx / dy)));
            if (d <= 0.5 + 1e-9) want.may.insert(std::make_pair(x, y));
        }
        compare(ctx, cells, want, "line");
        ctx.check((int)cells.size() == L + 1, "line-count", str(cells.size(), " cells for a line of ", L + 1));
        if (L >= 3) ctx.interesting();
        area_effects(ctx, *m, g, *a, cells, "line");
    }
    a->set(point(0, 0), Point2d(m->getOrigin().x + (g.w + 1.5) * res, m->getOrigin().y), m.get());
    a->begin();
    ctx.check(!a->next(), "line-outside", "line ending outside of the map is not empty");
}

WORKLOAD("C25", bresenham, 12000, 400000, 60,
         "20 random cell pairs (all octants, equal, adjacent, axis-parallel) on a random map through both entry points of one rasteriser object: chain of cells against "
         "the ideal line, cell queries against the map; non-trivial: pairs with a slope other than 0, 1 and infinity") {
    Rng& r = ctx.rng;
    GMap g;
    std::unique_ptr<SimpleGridMap2d> m = small_map(r, g, ctx.idx % 100 == 7 ? 900 : r.chance(0.1) ? 120 : 30);
    double res = m->getResolution();
    ctx.in << "map " << g.w << "x" << g.h;
    Bresenham2d b;
    if (r.chance(0.1)) {                        // without a map lines may run anywhere
        int R = r.chance(0.5) ? 40 : (int)r.pickd({300, 3000, 70000});
        if (ctx.idx % 3000 == 3) R = 3000000;
        int x0 = (int)r.range(-R, R), y0 = (int)r.range(-R, R), x1 = (int)r.range(-R, R), y1 = (int)r.range(-R, R), n = 0;
        if (r.chance(0.2)) y1 = y0 + (int)r.range(-2, 2);
        if (r.chance(0.2)) x1 = x0 + (int)r.range(-2, 2);
        ctx.in << " free line " << x0 << "," << y0 << " -> " << x1 << "," << y1;
        long dx = (long)x1 - x0, dy = (long)y1 - y0, L = std::max(std::labs(dx), std::labs(dy));
        b.setGrid(x0, y0, x1, y1);
        unsigned ux, uy; int x, y, px = 0, py = 0;
        for (;;) {
            b.coordinates(ux, uy); x = (int)ux; y = (int)uy;
            if (!n) ctx.check(x == x0 && y == y0, "free-start", "does not begin at its first cell");
            else ctx.check(std::abs(x - px) <= 1 && std::abs(y - py) <= 1 && (x != px || y != py), "free-gap", str("step ", n, " is not a step to a neighbor"));
            // twice the distance along the minor axis times L, exactly
            long off = 2 * std::labs(std::labs(dx) >= std::labs(dy) ? (y - (long)y0) * dx - (x - (long)x0) * dy : (x - (long)x0) * dy - (y - (long)y0) * dx);
            ctx.check(off <= L, "free-deviation", str("step ", n, " is ", L ? off / 2.0 / L : 0, " cells off the line"));
            px = x; py = y;
            if (!b.next()) break;
            ctx.check(++n <= L, "free-length", "more steps than needed");
        }
        ctx.check(n == L && x == x1 && y == y1, "free-end", str("ends after ", n, " of ", L, " steps"));
        ctx.ev("lines_without_map"); ctx.ev("cells_walked", n + 1);
    }
    for (int k = 0; k < 20; ++k) {
        int x0 = (int)r.range(0, g.w - 1), y0 = (int)r.range(0, g.h - 1), x1 = r.chance(0.1) ? x0 : (int)r.range(0, g.w - 1), y1 = r.chance(0.1) ? y0 : (int)r.range(0, g.h - 1);
        bool grid = r.chance(0.5);
        ctx.mix(x0 * 128 + y0); ctx.mix(x1 * 128 + y1);
        if (r.chance(0.08)) { // start or end outside of the map: nothing to walk
            bool first = r.chance(0.5); int side = (int)r.range(0, 3);
            int ox = side == 0 ? -1 - (int)r.range(0, 5) : side == 1 ? g.w + (int)r.range(0, 5) : x0, oy = side == 2 ? -1 - (int)r.range(0, 5) : side == 3 ? g.h + (int)r.range(0, 5) : y0;
            int sx = first ? ox : x1, sy = first ? oy : y1, ex = first ? x1 : ox, ey = first ? y1 : oy;
            if (grid) b.setGrid(m.get(), sx, sy, ex, ey);
            else b.set(m.get(), Point2d(m->getOrigin().x + (sx + 0.5) * res, m->getOrigin().y + (sy + 0.5) * res), Point2d(m->getOrigin().x + (ex + 0.5) * res, m->getOrigin().y + (ey + 0.5) * res));
            ctx.check(!b.next(), "outside", "line to a point outside of the map has cells to walk");
            ctx.ev("lines_outside");
            continue;
        }
        std::string what = str(x0, ",", y0, " -> ", x1, ",", y1, ": ");
        if (grid) b.setGrid(m.get(), x0, y0, x1, y1);
        else b.set(m.get(), Point2d(m->getOrigin().x + (x0 + r.real(0.05, 0.95)) * res, m->getOrigin().y + (y0 + r.real(0.05, 0.95)) * res),
                   Point2d(m->getOrigin().x + (x1 + r.real(0.05, 0.95)) * res, m->getOrigin().y + (y1 + r.real(0.05, 0.95)) * res));
        int dx = x1 - x0, dy = y1 - y0, L = std::max(std::abs(dx), std::abs(dy)), n = 0;
        unsigned x, y, px = x0, py = y0;
        bool abandon = r.chance(0.15), left = false;      // the line is not walked to its end
        b.coordinates(x, y);
        ctx.check((int)x == x0 && (int)y == y0, "start", what + str("first cell is ", x, ",", y));
        for (;;) {
            b.coordinates(x, y);
            ctx.check(g.in(x, y), "chain-outside", what + str("leaves the map at ", (int)x, ",", (int)y));
            if (n) ctx.check(std::abs((int)x - (int)px) <= 1 && std::abs((int)y - (int)py) <= 1 && (x != px || y != py), "chain-gap", what + "cells are not 8-connected");
            double d = L == 0 ? 0 : (std::abs(dx) >= std::abs(dy) ? std::fabs((int)y - (y0 + ((int)x - x0) * (double)dy / dx)) : std::fabs((int)x - (x0 + ((int)y - y0) * (double)dx / dy)));
            ctx.check(d <= 0.5 + 1e-9, "chain-deviation", what + str("cell ", x, ",", y, " is ", d, " cells off the line"));
            ctx.check(b.value() == m->getValue(x, y) && b.isFree() == m->isFree(x, y) && b.isOccupied() == m->isOccupied(x, y) && b.isNoInformation() == m->isNoInformation(x, y), "cell-query", what + str("query at ", x, ",", y, " differs from the map"));
            Point2d p, q; b.point(p); m->cell2point(x, y, q.x, q.y);
            ctx.check(p.x == q.x && p.y == q.y, "cell-point", what + "point of the current cell is wrong");
            px = x; py = y;
            if (abandon && r.chance(0.2)) { left = true; break; }
            if (!b.next()) break;
            ctx.check(++n <= L, "chain-length", what + str("more than the minimal ", L, " steps"));
        }
        if (left) { ctx.ev("lines_abandoned"); continue; }
        ctx.check(n == L && (int)x == x1 && (int)y == y1, "end", what + str("ends after ", n, " of ", L, " steps at ", x, ",", y));
        ctx.check(!b.next(), "end-again", what + "continues after the end");
        ctx.ev("lines_walked"); ctx.ev("cells_walked", n + 1);
        if (dx && dy && std::abs(dx) != std::abs(dy)) ctx.interesting();
    }
}

WORKLOAD("C26", footprints, 8000, 300000, 40,
         "collision map with a random robot rectangle (also copied maps) on which single obstacles or blocks are placed inside, near and outside of the rotated rectangle, "
         "queried at random headings including negative ones and beyond a full turn; non-trivial: both verdicts occurred") {
    Rng& r = ctx.rng;
    double res = r.pickd({0.05, 0.1, 1.0});
    double len = r.real(3, 14), wid = r.real(2, 12), back = -len * r.real(0.1, 0.9); // in cells
    int side = 48;
    if (r.chance(0.03)) { int big = (int)r.range(2, 6); len *= big; wid *= big; back *= big; side *= big; }
    double front = len + back;
    // the robot is given in meters: a map that gets its resolution later has the same robot
    double res0 = r.chance(0.2) ? res * r.pickd({0.5, 2, 4}) : res;
    std::unique_ptr<CollisionGridMap2d> m0(new CollisionGridMap2d(side, side, r.chance(0.5) ? 0 : r.real(-3, 3), res0, front * res, back * res, wid * res));
    if (res0 != res) { SimpleGridMap2d& sm = *m0; sm.setResolution(res); ctx.ev("resolutions_changed"); }
    m0->SimpleGridMap2d::set((uint8_t)0);
    std::unique_ptr<CollisionGridMap2d> mc;
    CollisionGridMap2d* m = m0.get();
    if (r.chance(0.3)) { mc.reset(new CollisionGridMap2d(*m0)); if (r.chance(0.5)) m0.reset(); m = mc.get(); ctx.ev("copied_maps"); }
    else if (r.chance(0.3)) {                   // assigned over a map with another robot and another size
        mc.reset(new CollisionGridMap2d((int)r.range(1, 60), (int)r.range(1, 60), r.real(-3, 3), r.pickd({0.05, 0.3}), r.real(0.1, 5), -r.real(0.1, 5), r.real(0.1, 3)));
        *mc = *m0;
        if (r.chance(0.2)) { CollisionGridMap2d& self = *mc; *mc = self; }
        if (r.chance(0.5)) m0.reset();
        m = mc.get(); ctx.ev("assigned_maps");
    }
    ctx.in << "robot front " << front << " back " << back << " width " << wid << " (cells)";
    ctx.mixd(front); ctx.mixd(wid);
    double step = wid / 8;                      // documented sampling step of the rectangle, in cells
    double reach = std::hypot(std::max(front, -back), wid / 2);
    double quant = 2 * M_PI / 128 * reach; // heading is quantised
    int k = std::max(1, (int)std::ceil(step * std::sqrt(2.0))); // side of a block no sample grid can miss
    bool hit = false, miss = false;
    for (int q = 0; q < 12; ++q) {
        int x = (int)r.range(0, side - 1), y = (int)r.range(0, side - 1);
        double th = r.chance(0.2) ? r.range(-8, 8) * M_PI / 4 : r.real(-9, 9);
        double c = std::cos(th), s = std::sin(th);
        // place one k x k block of obstacles around a random offset
        double ox = r.real(-1.3, 1.3) * reach, oy = r.real(-1.3, 1.3) * reach;
        if (r.chance(0.6)) { double u = r.real(back, front), v = r.real(-wid / 2, wid / 2); ox = c * u - s * v; oy = s * u + c * v; }
        int bx = x + (int)std::floor(ox), by = y + (int)std::floor(oy);
        bool any = false, full = true, center = false;
        bool inner = true, outer = true;
        for (int yy = by; yy < by + k; ++yy) for (int xx = bx; xx < bx + k; ++xx) {
            if (xx < 0 || yy < 0 || xx >= side || yy >= side) { full = false; continue; }
            m->setValue(xx, yy, 255); any = true;
            if (xx == x && yy == y) center = true;
        }
        // the block as an area relative to the robot cell: sample coordinates are truncated towards zero
        double lx = bx - x, hx = bx + k - 1 - x, ly = by - y, hy = by + k - 1 - y;
        double ax = lx <= 0 ? lx - 1 : lx, axh = hx >= 0 ? hx + 1 : hx, ay = ly <= 0 ? ly - 1 : ly, ayh = hy >= 0 ? hy + 1 : hy;
        // (a) certainly inside: a k x k square of the block well within the rotated rectangle
        double sx0 = lx < 0 ? lx - 1 : lx, sy0 = ly < 0 ? ly - 1 : ly; // one k-sized square of pre-images
        if (lx == 0) sx0 = 0; if (ly == 0) sy0 = 0;
        for (int e = 0; e < 4; ++e) {
            double u0 = sx0 + (e & 1 ? k : 0), v0 = sy0 + (e & 2 ? k : 0);
            double u = c * u0 + s * v0, v = -s * u0 + c * v0;
            if (u < back + quant || u > front - quant || v < -wid / 2 + quant || v > wid / 2 - quant) inner = false;
        }
        // (b) certainly outside: the rectangle's bounding box of all pre-images, inflated, does not touch the rectangle
        {
            double mx = (ax + axh) / 2, my = (ay + ayh) / 2, hr = std::hypot(axh - ax, ayh - ay) / 2 + quant + 0.5;
            double u = c * mx + s * my, v = -s * mx + c * my;
            double du = std::max(std::max(back - u, u - front), 0.0), dv = std::max(std::max(-wid / 2 - v, v - wid / 2), 0.0);
            if (std::hypot(du, dv) <= hr) outer = false;
        }
        std::string at = str("robot at ", x, ",", y, " heading ", th, ", ", k, "x", k, " block at offset ", bx - x, ",", by - y, ": ");
        uint8_t kind = r.chance(0.3) ? 120 : 255; // unknown or occupied
        if (kind == 120) for (int yy = by; yy < by + k; ++yy) for (int xx = bx; xx < bx + k; ++xx) if (xx >= 0 && yy >= 0 && xx < side && yy < side) m->setValue(xx, yy, kind);
        bool occ = m->isOccupiedRotated(x, y, th), fre = m->isFreeRotated(x, y, th), noi = m->isNoInformationRotated(x, y, th);
        ctx.ev("footprint_queries", 3);
        if (center || (inner && full)) {
            hit = true; ctx.ev("blocks_inside");
            if (kind == 255) ctx.check(occ, "missed-obstacle", at + "not reported as occupied");
            ctx.check(!fre, "missed-nonfree", at + str("reported as free although a ", kind == 255 ? "occupied" : "unknown", " block is inside"));
        } else if (outer || !any) {
            miss = true; ctx.ev("blocks_outside");
            ctx.check(!occ, "phantom-obstacle", at + "reported as occupied");
            ctx.check(fre, "phantom-nonfree", at + "reported as not free");
            ctx.check(!noi, "phantom-noinfo", at + "reported as without information");
        }
        if (kind == 120) ctx.check(!occ, "unknown-occupied", at + "unknown cells reported as occupied");
        for (int yy = by; yy < by + k; ++yy) for (int xx = bx; xx < bx + k; ++xx) if (xx >= 0 && yy >= 0 && xx < side && yy < side) m->setValue(xx, yy, 0);
    }
    // everything unknown: no information wherever the robot stands
    if (r.chance(0.2)) {
        m->SimpleGridMap2d::set((uint8_t)120);
        int x = (int)r.range(0, side - 1), y = (int)r.range(0, side - 1);
        double th = r.real(-7, 7);
        ctx.check(m->isNoInformationRotated(x, y, th), "all-unknown", "a map without any information yields information");
        ctx.check(!m->isFreeRotated(x, y, th) && !m->isOccupiedRotated(x, y, th), "all-unknown-class", "unknown map reported as free or occupied");
    }
    ctx.check(!m->isFreeRotated(side, 0, 0) && !m->isOccupiedRotated(0, side, 0) && !m->isNoInformationRotated(side, side, 0), "outside", "position outside of the map is classified");
    // a rectangle whose size is a multiple of eight cells, at heading zero: blocks an eighth of its width across fit exactly
    if (r.chance(0.3)) {
        int e = (int)r.range(1, 4), W = 8 * e, L = W * (r.chance(0.15) ? (int)r.picki({4, 8, 16}) : (int)r.range(1, 2)), bk = -(int)r.range(0, L), S = L + W + 8;
        double er = r.pickd({0.25, 0.5, 1.0});
        CollisionGridMap2d em(S, S, 0, er, (bk + L) * er, bk * er, W * er);
        em.SimpleGridMap2d::set((uint8_t)0);
        bool wide = r.chance(0.5);
        int bw = wide ? 2 * e : e, bh = wide ? e : 2 * e, cx = (int)r.range(0, S - 1), cy = (int)r.range(0, S - 1);
        // offsets of the block; it often touches the rectangle's border
        int ox = (int)r.range(bk, bk + L - bw), oy = (int)r.range(-W / 2, W / 2 - bh);
        if (r.chance(0.3)) ox = r.chance(0.5) ? bk : bk + L - bw;
        if (r.chance(0.3)) oy = r.chance(0.5) ? -W / 2 : W / 2 - bh;
        bool in = true;
        for (int yy = cy + oy; yy < cy + oy + bh; ++yy) for (int xx = cx + ox; xx < cx + ox + bw; ++xx) {
            if (xx < 0 || yy < 0 || xx >= S || yy >= S) in = false; else em.setValue(xx, yy, 255);
        }
        if (in) {
            std::string at = str("robot ", bk, "..", bk + L, " x ", W, " at ", cx, ",", cy, " heading 0, ", bw, "x", bh, " block at offset ", ox, ",", oy, ": ");
            ctx.check(em.isOccupiedRotated(cx, cy, 0.0), "missed-exact", at + "not reported as occupied");
            ctx.check(!em.isFreeRotated(cx, cy, 0.0), "free-exact", at + "reported as free");
            ctx.ev("exact_blocks_inside");
        }
    }
    if (hit && miss) ctx.interesting();
}
