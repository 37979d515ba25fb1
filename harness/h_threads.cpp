// Planners of several threads on one shared map: C32 (runs under ThreadSanitizer).
#include "threads.hpp"
#include "generic_planners.hpp"
#include <atomic>
#include <iostream>
#include <mutex>
#include <thread>
#include <sched.h>
#include <cslibs_path_planning/common/SimpleGridMap2d.h>
#include <cslibs_path_planning/common/RotatedGridMap2d.h>
#include <cslibs_path_planning/common/CollisionGridMap2d.h>
#include <cslibs_path_planning/common/Bresenham2d.h>
#include <cslibs_path_planning/ReedsShepp/CurveGenerator.h>
#include <cslibs_path_planning/sampling/SamplingPlanner.h>
#include <cslibs_path_planning/sampling/CentroidRadiusGoalRegion.h>

using namespace vf;
using namespace lib_path;
using vthr::Digest;

namespace {

// Map queries are where planners meet: give way there now and then.
thread_local uint64_t jitter = 0;
inline void meet() {
    if (!jitter) return;
    jitter = jitter * 6364136223846793005ull + 1442695040888963407ull;
    if ((jitter >> 33) % 97 == 0) sched_yield();
}
template <class M> struct Meeting : M {
    using M::M;
    using M::isFree; using M::isOccupied; using M::isNoInformation;
    bool isFree(const unsigned int x, const unsigned int y) const { meet(); return M::isFree(x, y); }
    bool isOccupied(const unsigned int x, const unsigned int y) const { meet(); return M::isOccupied(x, y); }
};

void grid_job(Rng r, GridMap2d* map, Digest& out) {
    std::unique_ptr<vgen::Planner> p = vgen::make(r.chance(0.3) ? 4 : 8, (int)r.range(1, 2), "21imo"[r.next() % 5]);
    int n = (int)r.range(1, 4);
    for (int i = 0; i < n; ++i) {
        p->map(map);
        Pose2d a(r.real(0, map->getWidth() - 0.01), r.real(0, map->getHeight() - 0.01), r.real(-3, 3)), b(r.real(0, map->getWidth() - 0.01), r.real(0, map->getHeight() - 0.01), r.real(-3, 3));
        SearchOptions so;
        if (r.chance(0.3)) so.oversearch_distance = r.real(0, 3);
        long calls = 0;
        vgen::Found f = r.chance(0.4) ? p->find_cb(a, b, [&calls] { ++calls; }, so) : p->find(a, b, so);
        out.push_back(calls);
        for (char c : f.exc) out.push_back(c);
        out.push_back(f.expansions); out.push_back(f.multi); out.push_back(f.touched);
        for (auto& k : f.path) { out.push_back(k.x); out.push_back(k.y); out.push_back(k.theta); out.push_back(k.g); }
        out.push_back(f.candidates.size());
    }
}
void curve_setup(Rng& r, CurveGenerator& g) {
    static const char* const P[] = {"LSL", "LSR", "RSL", "RSR", "|LSL", "|RSR", "|L|S|R", "LRL", "RLR", "LR|L", "R|LR", "LS(p)R", "R(b)S|L", "LRLR", "LR|LR", "R|LR|L"};
    std::ostringstream o;
    int n = (int)r.range(1, 6);
    for (int i = 0; i < n; ++i) g.parse(P[r.range(0, 15)], o);
    g.set_circle_radius(r.real(1.5, 6));
    g.set_max_waypoint_distance(r.real(0.3, 2));
    g.set_cost_backwards(r.pickd({1, 2}));
}
void curve_job(Rng r, GridMap2d* map, Digest& out) {
    CurveGenerator g;
    curve_setup(r, g);
    int n = (int)r.range(1, 4);
    for (int i = 0; i < n; ++i) {
        Pose2d a(r.real(0, map->getWidth() - 0.01), r.real(0, map->getHeight() - 0.01), r.real(-3, 3)), b(r.real(0, map->getWidth() - 0.01), r.real(0, map->getHeight() - 0.01), r.real(-3, 3));
        std::unique_ptr<Curve> c(g.find_path(a, b, map, r.chance(0.3)));
        out.push_back((bool)c);
        if (!c) continue;
        out.push_back(c->weight());
        c->reset_iteration();
        while (c->has_next()) { const Pose2d p = c->next(); out.push_back(p.x); out.push_back(p.y); out.push_back(p.theta); }
    }
}
void sampling_job(Rng r, GridMap2d* map, Digest& out) {
    CurveGenerator g;
    curve_setup(r, g);
    g.set_circle_radius(map->getResolution() * r.real(2, 5));
    SamplingPlanner pl(&g, map);
    Point2d a, b;
    map->cell2point((unsigned)r.range(0, map->getWidth() - 1), (unsigned)r.range(0, map->getHeight() - 1), a);
    map->cell2point((unsigned)r.range(0, map->getWidth() - 1), (unsigned)r.range(0, map->getHeight() - 1), b);
    CentroidRadiusGoalRegion reg(a, b, map->getResolution() * r.real(0, 5), r.real(-3, 3));
    std::unique_ptr<Curve> c(pl.createPath(Pose2d(a.x, a.y, r.real(-3, 3)), &reg, (int)r.range(1, 9)));
    out.push_back((bool)c);
    if (c) { out.push_back(c->weight()); out.push_back(c->goal().x); out.push_back(c->goal().y); out.push_back(c->goal().theta); }
}
void query_job(Rng r, GridMap2d* map, Digest& out) {
    int w = map->getWidth(), h = map->getHeight();
    CollisionGridMap2d* cm = dynamic_cast<CollisionGridMap2d*>(map);
    for (int i = (int)r.range(5, 25); i > 0; --i) {
        unsigned x = (unsigned)r.range(0, w - 1), y = (unsigned)r.range(0, h - 1), x2 = (unsigned)r.range(0, w - 1), y2 = (unsigned)r.range(0, h - 1);
        Point2d p, q;
        map->cell2point(x, y, p); map->cell2point(x2, y2, q);
        unsigned cx = 0, cy = 0;
        out.push_back(map->point2cell(p, cx, cy)); out.push_back(cx); out.push_back(cy);
        out.push_back(map->isInMap(p)); out.push_back(map->getValue(x, y));
        for (int k = 0; k < 3; ++k) {
            double t = r.real(-4, 8);
            out.push_back(map->isFree(x, y, t)); out.push_back(map->isOccupied(x, y, t)); out.push_back(map->isNoInformation(x, y, t));
            if (cm) { out.push_back(cm->isFreeRotated(x, y, t)); out.push_back(cm->isOccupiedRotated(x, y, t)); out.push_back(cm->isNoInformationRotated(x, y, t)); }
        }
        CircleArea c(p, map->getResolution() * r.real(0, 4), map);
        LineArea l(p, q, map);
        out.push_back(map->isAreaFree(c)); out.push_back(map->isAreaOccupied(c)); out.push_back(map->isAreaNoInformation(l));
        Bresenham2d b;
        b.setGrid(map, x, y, x2, y2);
        do { b.coordinates(cx, cy); out.push_back(cx); out.push_back(cy); out.push_back(b.isFree()); } while (b.next());
    }
}
enum { ASTAR, GRID, STEERING, CURVES, SAMPLING, QUERIES, NJOBS };
const char* const JOBS[] = {"grid A* jobs", "2D search jobs", "steering jobs", "curve jobs", "sampling jobs", "map query jobs"};
void run_job(int kind, Rng r, GridMap2d* map, Digest& out) {
    out.clear();
    try {
        switch (kind) {
        case ASTAR: vthr::astar_job(r, map, out); break;
        case GRID: grid_job(r, map, out); break;
        case STEERING: vthr::steering_job(r, map, out); break;
        case CURVES: curve_job(r, map, out); break;
        case SAMPLING: sampling_job(r, map, out); break;
        default: query_job(r, map, out); break;
        }
    } catch (std::exception& e) { out.push_back(-4242); for (const char* c = e.what(); *c; ++c) out.push_back(*c); }
    catch (...) { out.push_back(-4243); }
}

struct Task { int kind; uint64_t seed; Digest alone, together; double t0, t1; };

void threads_case(Ctx& ctx, int only, int mapkind) {
    Rng& r = ctx.rng;
    vthr::steering_config();
    int w = (int)r.range(8, only == STEERING ? 14 : 26), h = (int)r.range(8, only == STEERING ? 14 : 26);
    double res = only == STEERING || only < 0 ? r.pickd({0.4, 0.5}) : r.pickd({0.1, 0.5, 1});
    GMap g = gen_map(r, w, h, r.picki({0, 1, 3, 6, 7, 1}));
    for (auto& v : g.c) if (r.chance(0.3)) v = FREE;
    std::unique_ptr<SimpleGridMap2d> m;
    if (mapkind == 0) m.reset(new Meeting<SimpleGridMap2d>(w, h, res));
    else if (mapkind == 1) m.reset(new Meeting<RotatedGridMap2d>(w, h, r.real(-3, 3), res));
    else m.reset(new Meeting<CollisionGridMap2d>(w, h, r.chance(0.5) ? 0 : r.real(-3, 3), res, r.real(0.5, 2) * res, -r.real(0.5, 2) * res, r.real(0.5, 3) * res));
    m->setOrigin(Point2d(r.real(-20, 20), r.real(-20, 20)));
    for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) m->setValue(x, y, value_of(r, g.at(x, y), 50, 200));
    int n = (int)r.range(2, 6);
    std::vector<Task> ts(n);
    int k0 = (int)r.range(0, NJOBS - 1);
    bool alike = r.chance(0.5);        // all threads do the same kind of work
    bool same = r.chance(0.15);        // ... or even the same requests
    uint64_t s0 = r.next();
    ctx.in << "map kind " << mapkind << " " << g.dump() << " threads:";
    for (auto& t : ts) {
        t.kind = only >= 0 ? only : alike || same ? k0 : (int)r.range(0, NJOBS - 1);
        t.seed = same ? s0 : r.next();
        ctx.in << " " << JOBS[t.kind]; ctx.mix(t.seed);
    }
    int rounds = (int)r.range(1, 3);
    bool before = r.chance(0.5);       // sequential runs first: later runs find every one-time initialisation done
    auto alone = [&] { jitter = 0; for (auto& t : ts) run_job(t.kind, Rng(t.seed), m.get(), t.alone); };
    if (before) alone();
    std::atomic<int> ready(0), inside(0), most(0);
    std::atomic<bool> go(false);
    std::vector<std::thread> th;
    for (auto& t : ts)
        th.push_back(std::thread([&, rounds] {
            jitter = t.seed | 1;
            Digest first;
            ++ready;
            while (!go.load()) sched_yield();
            int now = ++inside, seen = most.load();
            while (now > seen && !most.compare_exchange_weak(seen, now)) {}
            for (int i = 0; i < rounds; ++i) {
                run_job(t.kind, Rng(t.seed), m.get(), t.together);
                if (i && t.together != first) break;
                first = t.together;
            }
            --inside;
        }));
    while (ready.load() < n) sched_yield();
    go = true;
    for (auto& x : th) x.join();
    if (!before) alone();
    for (auto& t : ts) {
        size_t d = 0;
        while (d < t.alone.size() && d < t.together.size() && t.alone[d] == t.together[d]) ++d;
        ctx.check(t.alone == t.together, std::string("result-") + JOBS[t.kind], str(JOBS[t.kind], ": results of ", t.alone.size(), " values alone and ", t.together.size(),
                  " values together with ", n - 1, " other threads differ at value ", d));
        ctx.ev(JOBS[t.kind]); ctx.ev("compared values", (long)t.alone.size());
    }
    if (most.load() >= 2) { ctx.interesting(); ctx.ev("overlapping runs"); }
}
} // namespace

WORKLOAD("C32", grid_astar, 200, 5000, 0, "2-6 threads of grid A* planners on a shared plain map; race detector, results against the same requests run alone; non-trivial: at least 2 threads running at once") { threads_case(ctx, ASTAR, 0); }
WORKLOAD("C32", grid_search, 400, 10000, 0, "the same with generic 2D searches of all heuristics and neighborhoods on plain, rotated and footprint maps") { threads_case(ctx, GRID, (int)(ctx.idx % 3)); }
WORKLOAD("C32", steering, 60, 1500, 0, "the same with steering searches") { threads_case(ctx, STEERING, ctx.idx % 4 == 3 ? 2 : 0); }
WORKLOAD("C32", curves, 200, 8000, 0, "the same with Reeds-Shepp curve generators") { threads_case(ctx, CURVES, 0); }
WORKLOAD("C32", sampling, 200, 5000, 0, "the same with sampling planners") { threads_case(ctx, SAMPLING, (int)(ctx.idx % 2)); }
WORKLOAD("C32", map_queries, 200, 8000, 0, "the same with conversions, area, raster and footprint queries of plain, rotated and footprint maps") { threads_case(ctx, QUERIES, (int)(ctx.idx % 3)); }
WORKLOAD("C32", mixed, 250, 8000, 0, "the same with different kinds of work on one map") { threads_case(ctx, -1, (int)(ctx.idx % 3)); }
