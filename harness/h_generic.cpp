// Generic 2D grid searches: C05-C09, C35.
#include <deque>
#include "generic_planners_impl.hpp"
#include "in_thread.hpp"
#include "fake_clock.hpp"

using namespace vf;
using namespace lib_path;
using namespace vgen;

namespace {

std::unique_ptr<Planner> random_planner(Rng& r, bool admissible = false) {
    for (;;) {
        std::unique_ptr<Planner> p = make(r.chance(0.5) ? 4 : 8, r.chance(0.7) ? 1 : (int)r.range(2, 3), "21imo"[r.next() % 5]);
        if (!admissible || p->admissible()) return p;
    }
}

std::unique_ptr<SimpleGridMap2d> make_map(Rng& r, const GMap& g) {
    std::unique_ptr<SimpleGridMap2d> m(new SimpleGridMap2d(g.w, g.h, r.pickd({0.05, 0.1, 1.0, 2.5})));
    int lo = 50, up = 200;
    if (r.chance(0.3)) { lo = (int)r.range(0, 120); up = (int)r.range(lo + 2, 255); m->setLowerThreshold(lo); m->setUpperThreshold(up); }
    for (int y = 0; y < g.h; ++y) for (int x = 0; x < g.w; ++x) m->setValue(x, y, value_of(r, g.at(x, y), lo, up));
    return m;
}

// Reference: what a search from cell s may step on, and distances (in cells) with jumps of d.
struct Ref {
    bool blocked;                // start or goal occupied
    std::vector<double> dist;
    int w;
    double at(int x, int y) const { return dist[(size_t)y * w + x]; }
};
std::vector<double> jumps(const GMap& g, int sx, int sy, int n, int d) {
    std::vector<double> dist((size_t)g.w * g.h, INF);
    typedef std::pair<double, int> E;
    std::priority_queue<E, std::vector<E>, std::greater<E> > q;
    dist[(size_t)sy * g.w + sx] = 0; q.push(E(0, sy * g.w + sx));
    while (!q.empty()) {
        E e = q.top(); q.pop();
        if (e.first > dist[e.second]) continue;
        int x = e.second % g.w, y = e.second / g.w;
        for (int i = 0; i < n; ++i) {
            int nx = x + d * DX8[i], ny = y + d * DY8[i];
            if (!g.free(nx, ny)) continue;
            double nd = e.first + d * (i < 4 ? 1.0 : std::sqrt(2.0));
            if (nd < dist[(size_t)ny * g.w + nx] - 1e-12) { dist[(size_t)ny * g.w + nx] = nd; q.push(E(nd, ny * g.w + nx)); }
        }
    }
    return dist;
}
Ref reference(const GMap& g, const Planner& p, int sx, int sy, int gx, int gy) {
    Ref o; o.w = g.w;
    o.blocked = g.at(sx, sy) == OCC || g.at(gx, gy) == OCC;
    o.dist = jumps(g, sx, sy, p.n, p.d);
    return o;
}

bool near_goal(int x, int y, int gx, int gy, int d) { return std::abs(x - gx) <= d && std::abs(y - gy) <= d; }

// Path is a chain of moves over free cells, from (sx,sy), without repetition; nodes carry the travelled distance.
double validate_chain(Ctx& ctx, const GMap& g, const Planner& p, double res, const PPath& path, int sx, int sy) {
    ctx.check(!path.empty() && path[0].x == sx && path[0].y == sy, "path-start", "path does not begin at the start cell");
    std::set<std::pair<int, int> > seen;
    double cost = 0;
    for (size_t i = 0; i < path.size(); ++i) {
        int x = (int)path[i].x, y = (int)path[i].y;
        ctx.check(path[i].x == x && path[i].y == y, "path-cell", "path node is not a cell");
        ctx.check(g.in(x, y), "path-outside", str("path leaves the map at ", x, ",", y));
        ctx.check(seen.insert(std::make_pair(x, y)).second, "path-repeat", str("path visits cell ", x, ",", y, " twice"));
        if (i) {
            ctx.check(g.free(x, y), "path-blocked", str("path crosses the non-free cell ", x, ",", y));
            int dx = std::abs(x - (int)path[i - 1].x), dy = std::abs(y - (int)path[i - 1].y);
            bool straight = (dx == p.d && dy == 0) || (dx == 0 && dy == p.d), diag = dx == p.d && dy == p.d;
            ctx.check(straight || (diag && p.n == 8), "path-step", str("step of ", dx, ",", dy, " in a ", p.n, " neighborhood of step ", p.d));
            cost += res * p.d * (straight ? 1.0 : std::sqrt(2.0));
        }
        if (p.heur == 'p') continue;             // a cell before it may have become cheaper since
        if (p.admissible()) ctx.check(std::fabs(path[i].g - cost) < 1e-6 * (1 + cost), "path-distance", str("node ", i, " carries distance ", path[i].g, ", travelled ", cost));
        else ctx.check(path[i].g < cost + 1e-6 * (1 + cost), "path-distance", str("node ", i, " carries distance ", path[i].g, ", travelled only ", cost));
    }
    return cost;
}

struct Query { int sx, sy, gx, gy; Pose2d a, b; };
Query gen_query(Rng& r, const GMap& g) {
    Query q;
    std::pair<int, int> s = pick_cell(r, g, r.chance(0.92)), t = pick_cell(r, g, r.chance(0.85));
    if (r.chance(0.05)) t = s;
    if (r.chance(0.1)) { t.first = std::min(g.w - 1, std::max(0, s.first + (int)r.range(-4, 4))); t.second = std::min(g.h - 1, std::max(0, s.second + (int)r.range(-4, 4))); }
    q.sx = s.first; q.sy = s.second; q.gx = t.first; q.gy = t.second;
    bool frac = r.chance(0.6);
    q.a = Pose2d(q.sx + (frac ? r.real(0, 0.999) : 0), q.sy + (frac ? r.real(0, 0.999) : 0), r.real(-3.1, 3.1));
    q.b = Pose2d(q.gx + (frac ? r.real(0, 0.999) : 0), q.gy + (frac ? r.real(0, 0.999) : 0), r.real(-3.1, 3.1));
    return q;
}
void describe(Ctx& ctx, const GMap& g, const Planner& p, const Query& q) {
    ctx.in << "planner " << p.name() << " map " << g.dump() << " start " << q.a.x << "," << q.a.y << " goal " << q.b.x << "," << q.b.y;
    ctx.mix(g.hash()); ctx.mix(((uint64_t)q.sx << 48) ^ ((uint64_t)q.sy << 32) ^ ((uint64_t)q.gx << 16) ^ (uint64_t)q.gy);
    ctx.mix((uint64_t)p.heur * 64 + p.n * 4 + p.d);
}

// the terminal cells' best distance plus heuristic
double best_f(const GMap& g, const Planner& p, const Ref& ref, double res, const Query& q) {
    double best = INF;
    for (int y = std::max(0, q.gy - p.d); y <= std::min(g.h - 1, q.gy + p.d); ++y)
        for (int x = std::max(0, q.gx - p.d); x <= std::min(g.w - 1, q.gx + p.d); ++x)
            best = std::min(best, res * ref.at(x, y) + p.h(x - q.gx, y - q.gy, res));
    return best;
}

void validate(Ctx& ctx, const GMap& g, const Planner& p, double res, const Query& q, const Found& f, const Ref& ref) {
    double best = best_f(g, p, ref, res, q);
    bool want = !ref.blocked && std::isfinite(best);
    if (ref.blocked && (f.exc == "start-occ" || f.exc == "goal-occ")) return;
    ctx.check(f.exc.empty(), "exception", "valid request raised " + f.exc);
    ctx.check(!f.path.empty() || !want, "no-path", "no path although the goal can be reached");
    ctx.check(f.path.empty() || want, "spurious-path", ref.blocked ? "path although start or goal is occupied" : "path although the goal cannot be reached");
    if (f.path.empty()) { ctx.ev("no_path"); return; }
    ctx.ev("paths"); ctx.ev("path_cells", (long)f.path.size());
    validate_chain(ctx, g, p, res, f.path, q.sx, q.sy);
    const PNode& l = f.path.back();
    ctx.check(near_goal((int)l.x, (int)l.y, q.gx, q.gy, p.d), "path-goal", str("path ends at ", l.x, ",", l.y));
    for (size_t i = 0; i + 1 < f.path.size(); ++i)
        if (p.admissible()) ctx.check(!near_goal((int)f.path[i].x, (int)f.path[i].y, q.gx, q.gy, p.d), "path-overrun", "path goes on after reaching the goal");
}

GMap random_map(Rng& r, int side) {
    std::pair<int, int> s = gen_size(r, side);
    return gen_map(r, s.first, s.second);
}

} // namespace

WORKLOAD("C05", search_paths, 120000, 3000000, 100,
         "generic 2D search (5 heuristics, 4/8 neighbors, steps 1-3 cells) on random maps up to 40x40 with random start/goal: path validator and reachability reference; "
         "non-trivial: both outcomes with neither start nor goal occupied, and a path of at least 3 cells or none") {
    Rng& r = ctx.rng;
    GMap g = random_map(r, r.chance(0.002) ? 350 : r.chance(0.01) ? 130 : ctx.thorough ? 60 : 36);
    std::unique_ptr<SimpleGridMap2d> m = make_map(r, g);
    bool footprint = r.chance(0.1);
    if (footprint) {   // the planner sees the map through the robot's footprint at heading 0
        double res = m->getResolution();
        std::unique_ptr<SimpleGridMap2d> c(new CollisionGridMap2d(g.w, g.h, 0, res, r.real(0.2, 2) * res, -r.real(0.2, 2) * res, r.real(0.5, 2.5) * res));
        for (int y = 0; y < g.h; ++y) for (int x = 0; x < g.w; ++x) c->setValue(x, y, value_of(r, g.at(x, y), 50, 200));
        m = std::move(c);
        for (int y = 0; y < g.h; ++y) for (int x = 0; x < g.w; ++x) { const GridMap2d& b = *m; g.at(x, y) = b.isFree(x, y, 0.0) ? FREE : b.isOccupied(x, y, 0.0) ? OCC : UNKNOWN; }
        ctx.ev("footprint_maps");
    }
    std::unique_ptr<Planner> p = random_planner(r);
    p->map(m.get());
    Query q = gen_query(r, g);
    if (footprint) q.a.theta = q.b.theta = 0;
    describe(ctx, g, *p, q);
    Found f = p->find(q.a, q.b, SearchOptions());
    Ref ref = reference(g, *p, q.sx, q.sy, q.gx, q.gy);
    validate(ctx, g, *p, m->getResolution(), q, f, ref);
    ctx.check(f.expansions >= (f.path.empty() ? 0 : 1) && f.multi >= 0 && f.multi <= f.expansions, "statistics", "search statistics are inconsistent");
    if (!ref.blocked && (f.path.empty() || f.path.size() >= 3)) ctx.interesting();
    if (f.multi) ctx.ev("reexpansions", f.multi);
}

namespace {
void wide_case(Ctx& ctx, bool cost_claim) {
    Rng& r = ctx.rng;
    GMap g = wide_map(r);
    std::unique_ptr<SimpleGridMap2d> m = make_map(r, g);
    double res = m->getResolution();
    std::unique_ptr<Planner> p = make(r.chance(0.3) ? 4 : 8, 1, cost_claim ? "2im"[r.next() % 3] : "2im1"[r.next() % 4]);
    if (p->heur == '1' && p->n == 8) p = make(4, 1, '1');
    p->map(m.get());
    bool side = r.chance(0.5);
    std::pair<int, int> a = wide_cell(r, g, side), b = wide_cell(r, g, !side);
    Query q; q.sx = a.first; q.sy = a.second; q.gx = b.first; q.gy = b.second;
    q.a = Pose2d(q.sx + 0.5, q.sy + 0.5, 0); q.b = Pose2d(q.gx + 0.5, q.gy + 0.5, 0);
    describe(ctx, g, *p, q);
    Found f = p->find(q.a, q.b, SearchOptions());
    Ref ref = reference(g, *p, q.sx, q.sy, q.gx, q.gy);
    validate(ctx, g, *p, res, q, f, ref);
    if (f.path.empty()) return;
    double best = best_f(g, *p, ref, res, q), f_end = f.path.back().g + p->h(f.path.back().x - q.gx, f.path.back().y - q.gy, res);
    ctx.check(f_end <= best + 1e-6 * (1 + best), "not-cheapest", str("path cost plus heuristic ", f_end, ", best is ", best));
    ctx.ev("wide_paths"); ctx.interesting();
}
}
WORKLOAD("C05", wide_paths, 16, 300, 0, "one search through a corridor of 33 000 to 70 000 cells, with and without walls") { wide_case(ctx, false); }
WORKLOAD("C06", wide_costs, 16, 300, 0, "the same, with the cost compared") { wide_case(ctx, true); }

WORKLOAD("C06", search_cost, 100000, 3000000, 0,
         "generic 2D search with an admissible heuristic against reference Dijkstra distances: returned cost plus heuristic at the end is the minimum over all cells that end the search; "
         "non-trivial: path of at least 3 cells") {
    Rng& r = ctx.rng;
    GMap g = random_map(r, r.chance(0.003) ? 300 : ctx.thorough ? 60 : 36);
    std::unique_ptr<SimpleGridMap2d> m = make_map(r, g);
    double res = m->getResolution();
    std::unique_ptr<Planner> p = random_planner(r, true);
    p->map(m.get());
    Query q = gen_query(r, g);
    describe(ctx, g, *p, q);
    Found f = p->find(q.a, q.b, SearchOptions());
    if (f.path.empty()) { ctx.ev("no_path"); return; }
    double cost = validate_chain(ctx, g, *p, res, f.path, q.sx, q.sy);
    Ref ref = reference(g, *p, q.sx, q.sy, q.gx, q.gy);
    int lx = (int)f.path.back().x, ly = (int)f.path.back().y;
    double tol = 1e-6 * (1 + cost);
    ctx.check(cost <= res * ref.at(lx, ly) + tol, "not-cheapest-end", str("path costs ", cost, ", its last cell can be reached at ", res * ref.at(lx, ly)));
    double f_end = cost + p->h(lx - q.gx, ly - q.gy, res);
    ctx.check(f_end <= res * ref.at(q.gx, q.gy) + tol, "not-cheapest-goal", str("path cost plus heuristic ", f_end, ", goal can be reached at ", res * ref.at(q.gx, q.gy)));
    double best = best_f(g, *p, ref, res, q);
    ctx.check(f_end <= best + tol, "not-cheapest", str("path cost plus heuristic ", f_end, ", best is ", best));
    ctx.ev("paths");
    if (f.path.size() >= 3) ctx.interesting();
}

WORKLOAD("C06", mazes, 30000, 600000, 0,
         "the same on mazes with loops and U traps where greedy search fails, 8-neighbors; non-trivial: shortest path at least 1.3 times the straight distance") {
    Rng& r = ctx.rng;
    int side = r.chance(0.003) ? 300 : ctx.thorough ? 70 : 41, w = (int)r.range(9, side), h = (int)r.range(9, side);
    GMap g = gen_map(r, w, h, r.picki({4, 5, 7, 3, 8}));
    std::unique_ptr<SimpleGridMap2d> m = make_map(r, g);
    double res = m->getResolution();
    std::unique_ptr<Planner> p = make(r.chance(0.3) ? 4 : 8, 1, "2im"[r.next() % 3]);
    p->map(m.get());
    Query q = gen_query(r, g);
    describe(ctx, g, *p, q);
    Found f = p->find(q.a, q.b, SearchOptions());
    Ref ref = reference(g, *p, q.sx, q.sy, q.gx, q.gy);
    double best = best_f(g, *p, ref, res, q);
    if (ref.blocked || !std::isfinite(best)) { ctx.check(f.path.empty(), "spurious-path", "path although there is none"); return; }
    ctx.check(!f.path.empty(), "no-path", "no path although there is one");
    double cost = validate_chain(ctx, g, *p, res, f.path, q.sx, q.sy);
    double f_end = cost + p->h(f.path.back().x - q.gx, f.path.back().y - q.gy, res);
    ctx.check(f_end <= best + 1e-6 * (1 + best), "not-cheapest", str("path cost plus heuristic ", f_end, ", best is ", best));
    if (cost > 1.3 * res * std::hypot(q.sx - q.gx, q.sy - q.gy)) { ctx.interesting(); ctx.ev("detours"); }
}

WORKLOAD("C06", patchy_estimates, 60000, 1500000, 0,
         "a heuristic of the user that never overestimates but is low in some cells and exact in others, so that cells are reached anew on a shorter way after they have been expanded; non-trivial: cells expanded twice") {
    Rng& r = ctx.rng;
    GMap g = random_map(r, ctx.thorough ? 60 : 36);
    std::unique_ptr<SimpleGridMap2d> m = make_map(r, g);
    double res = m->getResolution();
    std::unique_ptr<Planner> p = make(r.chance(0.3) ? 4 : 8, r.chance(0.8) ? 1 : 2, 'p');
    patch_seed() = (unsigned)r.range(1, 1000000);
    p->map(m.get());
    Query q = gen_query(r, g);
    describe(ctx, g, *p, q);
    ctx.in << " patches " << patch_seed();
    Found f = p->find(q.a, q.b, SearchOptions());
    Ref ref = reference(g, *p, q.sx, q.sy, q.gx, q.gy);
    if (f.path.empty()) { ctx.ev("no_path"); ctx.check(ref.blocked || !std::isfinite(ref.at(q.gx, q.gy)), "no-path", "no path although the goal can be reached"); return; }
    double cost = validate_chain(ctx, g, *p, res, f.path, q.sx, q.sy);
    double lx = f.path.back().x, ly = f.path.back().y, f_end = cost + res * patch_factor(lx, ly) * std::hypot(lx - q.gx, ly - q.gy);
    double best = res * ref.at(q.gx, q.gy);
    ctx.check(f_end <= best + 1e-6 * (1 + best), "not-cheapest", str("path cost plus heuristic ", f_end, ", goal can be reached at ", best));
    ctx.ev("paths");
    if (f.multi) { ctx.interesting(); ctx.ev("cells expanded again", f.multi); }
}

namespace {
// A map for histories: plain or with a footprint that depends on the heading.
struct HMap {
    GMap g;
    std::unique_ptr<SimpleGridMap2d> m;
    bool footprint;
};
HMap history_map(Rng& r, int side) {
    HMap o;
    o.g = random_map(r, side);
    o.footprint = r.chance(0.35);
    if (o.footprint) {
        for (auto& v : o.g.c) if (v == UNKNOWN) v = FREE;
        double res = r.pickd({0.1, 0.5});
        o.m.reset(new CollisionGridMap2d(o.g.w, o.g.h, 0, res, r.real(0.2, 3) * res, -r.real(0.2, 3) * res, r.real(0.5, 3) * res));
        for (int y = 0; y < o.g.h; ++y) for (int x = 0; x < o.g.w; ++x) o.m->setValue(x, y, value_of(r, o.g.at(x, y), 50, 200));
    } else o.m = make_map(r, o.g);
    return o;
}
std::string same(const Found& a, const Found& b) {
    if (a.exc != b.exc) return "exceptions differ: '" + a.exc + "' and '" + b.exc + "'";
    if (a.path.size() != b.path.size()) return str("paths of ", a.path.size(), " and ", b.path.size(), " cells");
    for (size_t i = 0; i < a.path.size(); ++i) {
        if (a.path[i].x != b.path[i].x || a.path[i].y != b.path[i].y) return str("paths differ at cell ", i);
        if (a.path[i].theta != b.path[i].theta) return str("headings differ at cell ", i, ": ", a.path[i].theta, " and ", b.path[i].theta);
        if (std::fabs(a.path[i].g - b.path[i].g) > 1e-9 * (1 + b.path[i].g)) return str("distances differ at cell ", i);
    }
    if (a.expansions != b.expansions || a.multi != b.multi || a.touched != b.touched)
        return str("statistics differ: ", a.expansions, "/", a.multi, "/", a.touched, " and ", b.expansions, "/", b.multi, "/", b.touched);
    if (a.candidates.size() != b.candidates.size()) return str(a.candidates.size(), " and ", b.candidates.size(), " candidates");
    return "";
}
} // namespace

WORKLOAD("C07", search_history, 30000, 600000, 40,
         "history of 4-14 operations on one planner (assign the same or another map, edit it in place, search, search with custom goals, searches without assigning the map, invalid requests, "
         "time-limited searches); every search after an assignment against a fresh planner; maps with and without heading-dependent footprints; non-trivial: at least 3 compared searches, one with a path") {
    Rng& r = ctx.rng;
    int n = r.chance(0.5) ? 4 : 8, d = r.chance(0.75) ? 1 : 2; char heur = "21imo"[r.next() % 5];
    std::unique_ptr<Planner> p = make(n, d, heur);
    std::deque<HMap> maps;
    int nm = (int)r.range(1, 4);
    for (int i = 0; i < nm; ++i) { maps.push_back(history_map(r, ctx.idx % 100 == 7 ? 150 : 22)); ctx.mix(maps.back().g.hash()); }
    if (nm > 1 && r.chance(0.4)) { // another map of the same size
        HMap& a = maps[0]; HMap b; b.footprint = false; b.g = gen_map(r, a.g.w, a.g.h); b.m = make_map(r, b.g); maps.push_back(std::move(b)); ++nm;
    }
    int ops = (int)r.range(4, 14), compared = 0, paths = 0, cur = -1;
    ctx.in << p->name();
    for (int i = 0; i < nm; ++i) ctx.in << " map" << i << (maps[i].footprint ? "(footprint) " : " ") << maps[i].g.dump();
    for (int k = 0; k < ops; ++k) {
        double x = r.unit();
        if (cur < 0 || x < 0.65) {
            if (cur < 0 || r.chance(0.6)) cur = (int)r.range(0, nm - 1);
            HMap& h = maps[cur];
            if (r.chance(0.3)) for (int e = (int)r.range(1, 10); e > 0; --e) {
                int cx = (int)r.range(0, h.g.w - 1), cy = (int)r.range(0, h.g.h - 1);
                h.g.at(cx, cy) = r.chance(0.5) ? OCC : FREE;
                h.m->setValue(cx, cy, h.g.at(cx, cy) == OCC ? 255 : 0);
            }
            if (r.chance(0.12)) {           // the map object itself gets another size or is replaced
                GMap g2 = random_map(r, 22);
                if (h.footprint) for (auto& v : g2.c) if (v == UNKNOWN) v = FREE;
                h.g = g2;
                if (!h.footprint && r.chance(0.4)) { h.m.reset(); h.m = make_map(r, h.g); ctx.ev("maps_deleted"); }
                else {
                    std::vector<uint8_t> data(h.g.c.size());
                    for (size_t i = 0; i < data.size(); ++i) data[i] = value_of(r, h.g.c[i], 50, 200);
                    h.m->setLowerThreshold(50); h.m->setUpperThreshold(200);
                    h.m->set(data, h.g.w, h.g.h);
                    ctx.ev("maps_resized_in_place");
                }
                ctx.in << "; map" << cur << " becomes " << h.g.dump();
            }
            p->map(h.m.get());
            ctx.check(p->candidates() == 0, "stale-candidates", "solutions of a search with another map are still offered after a map was assigned");
            Query q = gen_query(r, h.g);
            if (r.chance(0.15)) q.b.x += h.g.w; // invalid
            ctx.in << "; set map" << cur << " search " << q.a.x << "," << q.a.y << "," << q.a.theta << " to " << q.b.x << "," << q.b.y << "," << q.b.theta;
            ctx.mixd(q.a.x); ctx.mixd(q.b.x);
            SearchOptions so;
            if (r.chance(0.2)) so.oversearch_distance = r.real(0.1, 8) * h.m->getResolution();
            std::unique_ptr<Planner> fresh = make(n, d, heur);
            fresh->map(h.m.get());
            Found a, b;
            if (r.chance(0.25)) {
                std::vector<GoalSpec> gs;
                int ng = (int)r.range(1, 4);
                for (int i = 0; i < ng; ++i) { GoalSpec s = {(double)r.range(0, h.g.w - 1), (double)r.range(0, h.g.h - 1), r.real(0, 10), r.chance(0.4)}; gs.push_back(s); }
                ctx.in << " custom goals " << ng << " oversearch " << so.oversearch_distance;
                const Pose2d* hg = r.chance(0.4) ? &q.b : 0;
                a = p->find_custom(q.a, gs, so, hg); b = fresh->find_custom(q.a, gs, so, hg);
            } else {
                ctx.in << " oversearch " << so.oversearch_distance;
                a = p->find(q.a, q.b, so); b = fresh->find(q.a, q.b, so);
            }
            std::string diff = same(a, b);
            ctx.check(diff.empty(), "reuse", "reused and fresh planner: " + diff);
            ++compared; if (!a.path.empty()) ++paths;
            ctx.ev("compared_searches");
        } else if (x < 0.8) {           // search without assigning the map: no claim about the result
            Query q = gen_query(r, maps[cur].g);
            ctx.in << "; search again";
            p->find(q.a, q.b, SearchOptions());
        } else if (x < 0.9) {           // time limit already over
            Query q = gen_query(r, maps[cur].g);
            ctx.in << "; timed search";
            p->limit(1e-9);
            p->find(q.a, q.b, SearchOptions());
            p->limit(-1);
        } else {                        // start outside
            Query q = gen_query(r, maps[cur].g);
            q.a.y -= q.sy + 5;
            ctx.in << "; invalid search";
            p->find(q.a, q.b, SearchOptions());
        }
    }
    if (compared >= 3 && paths >= 1) ctx.interesting();
}

WORKLOAD("C07", long_history, 24, 400, 0,
         "one planner that gets its map about 255 or about 65 535 times, with searches from a cell to itself, before searches that are compared with a fresh planner; non-trivial: a path found afterwards") {
    Rng& r = ctx.rng;
    bool huge = ctx.idx % 24 == 5;
    int n = r.chance(0.5) ? 4 : 8; char heur = "21imo"[r.next() % 5];
    GMap g = random_map(r, huge ? 4 : 8), g2 = gen_map(r, g.w, g.h);
    std::unique_ptr<SimpleGridMap2d> m = make_map(r, g), m2 = make_map(r, g2);
    std::unique_ptr<Planner> p = make(n, 1, heur);
    Query c = gen_query(r, g);
    c.b = c.a;
    ctx.in << p->name() << " map " << g.dump() << " and " << g2.dump() << " searches from " << c.a.x << "," << c.a.y << " to itself"; ctx.mix(g.hash());
    for (int round = 0; round < (huge ? 3 : 9); ++round) {
        long between = (huge ? 65534 : r.pickd({254, 126, 510})) + round % 3;
        for (int k = 0; k < 2; ++k) {
            bool second = r.chance(0.5);
            Query q = gen_query(r, second ? g2 : g);
            const GridMap2d* mm = second ? m2.get() : m.get();
            ctx.in << "; map" << second << " search " << q.a.x << "," << q.a.y << " to " << q.b.x << "," << q.b.y;
            p->map(mm);
            Found a = p->find(q.a, q.b, SearchOptions());
            std::unique_ptr<Planner> fresh = make(n, 1, heur);
            fresh->map(mm);
            std::string diff = same(a, fresh->find(q.a, q.b, SearchOptions()));
            ctx.check(diff.empty(), "reuse", "reused and fresh planner: " + diff);
            ctx.ev("compared_searches");
            if (a.path.size() > 2) ctx.interesting();
            if (k == 0) {
                ctx.in << "; " << between << " times map and search";
                for (long i = 0; i < between; ++i) { p->map(m.get()); if (!huge || i % 8 == 0) p->find(c.a, c.b, SearchOptions()); }
                ctx.ev("map_assignments", between);
            }
        }
    }
}

WORKLOAD("C08", invalid_requests, 80000, 2000000, 60,
         "random requests with start and/or goal outside the map (all sides, from a fraction of a cell to far away) or without a map, mixed with valid ones on one planner: raised exception, and the valid answer "
         "after assigning the map again against a fresh planner; non-trivial: at least one invalid request followed by a valid one") {
    Rng& r = ctx.rng;
    GMap g = random_map(r, 16);
    std::unique_ptr<SimpleGridMap2d> m = make_map(r, g);
    int n = r.chance(0.5) ? 4 : 8; char heur = "21imo"[r.next() % 5];
    std::unique_ptr<Planner> p = make(n, 1, heur);
    ctx.in << p->name() << " map " << g.dump();
    ctx.mix(g.hash());
    bool nomap = r.chance(0.2);
    if (nomap) {
        Query q = gen_query(r, g);
        Found f = p->find(q.a, q.b, SearchOptions());
        ctx.in << "; search without a map";
        ctx.check(!f.exc.empty() && f.exc != "OutsideMapException", "no-map", "search without a map raised '" + f.exc + "'");
        ctx.ev("requests_without_map");
    }
    p->map(m.get());
    int ops = (int)r.range(2, 6);
    bool invalid = false, then_valid = false;
    auto outside = [&](Pose2d& q) {
        double far = r.chance(0.1) ? r.pickd({1e5, 1e9, 3e9, 1e15}) : r.chance(0.5) ? r.real(0.001, 0.99) : r.real(1, 40);
        switch (r.range(0, 3)) {
        case 0: q.x = -far; break;
        case 1: q.y = -far; break;
        case 2: q.x = g.w + far; if (r.chance(0.2)) q.x = g.w; break;
        default: q.y = g.h + far; if (r.chance(0.2)) q.y = g.h; break;
        }
    };
    for (int k = 0; k < ops; ++k) {
        Query q = gen_query(r, g);
        if (r.chance(0.3)) { q.a = Pose2d(q.sx, q.sy, 0); } // exactly on the border of a cell
        int what = (int)r.range(0, 3); // 0 valid, 1 start, 2 goal, 3 both
        if (what & 1) outside(q.a);
        if (what & 2) outside(q.b);
        SearchOptions so;
        if (r.chance(0.2)) so.oversearch_distance = 1;
        ctx.in << "; " << q.a.x << "," << q.a.y << " to " << q.b.x << "," << q.b.y;
        ctx.mixd(q.a.x); ctx.mixd(q.a.y); ctx.mixd(q.b.x); ctx.mixd(q.b.y);
        bool socc = !(what & 1) && g.at(q.sx, q.sy) == OCC;
        bool custom = !(what & 2) && r.chance(0.3);    // a goal test instead of a goal pose
        std::vector<GoalSpec> gs(1, GoalSpec{(double)q.gx, (double)q.gy, 0.0, true});
        if (custom) ctx.in << " test";
        auto find = [&](Planner& pl) { return custom ? pl.find_custom(q.a, gs, so, 0) : pl.find(q.a, q.b, so); };
        Found f = find(*p);
        if (what) {
            invalid = true;
            ctx.check(f.path.empty(), "path-outside", "path for a request outside of the map");
            std::string want = (what & 1) ? "start-out" : "goal-out";
            if (f.exc != want && !(socc && f.exc == "start-occ"))
                ctx.fail("exception", str("request with ", what == 1 ? "start" : what == 2 ? "goal" : "start and goal", " outside of the map raised '", f.exc, "' instead of ", want));
            ctx.ev("invalid_requests");
            p->map(m.get());
        } else {
            std::unique_ptr<Planner> fresh = make(n, 1, heur);
            fresh->map(m.get());
            Found b = find(*fresh);
            std::string diff = same(f, b);
            ctx.check(diff.empty(), "unusable", "after invalid requests: " + diff);
            if (invalid) then_valid = true;
            p->map(m.get());
        }
    }
    if (then_valid) ctx.interesting();
}

// ---------------------------------------------------------------- C09
namespace {
template <int DI, int DS> struct Ticker {
    static long total;     // callbacks of this type in this process so far
};
template <int DI, int DS> long Ticker<DI, DS>::total = 0;

template <int DI, int DS> void progress_case(Ctx& ctx) {
    Rng& r = ctx.rng;
    GMap g = random_map(r, 30);
    std::unique_ptr<SimpleGridMap2d> m = make_map(r, g);
    typedef AStar2dSearch_Debug<DI, DS, DirectNeighborhood<8, 1> > S;
    std::unique_ptr<Planner> p(new Impl<S>), plain = make(8, 1, '2');
    p->n = 8; p->d = 1; p->heur = '2';
    p->map(m.get()); plain->map(m.get());
    Query q = gen_query(r, g);
    ctx.in << "period " << DI << " first " << DS << " ";
    describe(ctx, g, *p, q);
    SearchOptions so;
    if (r.chance(0.3)) so.oversearch_distance = r.real(0.5, 6) * m->getResolution();
    std::vector<int> at;
    std::vector<long> ord;
    Found f = p->find_cb(q.a, q.b, [&] { at.push_back(p->expansions()); ord.push_back(++Ticker<DI, DS>::total); }, so);
    Found b = plain->find(q.a, q.b, so);
    std::string diff = same(f, b);
    ctx.check(diff.empty(), "callback-result", "search with and without callback: " + diff);
    if (DI == 0) { ctx.check(at.empty(), "callback-off", "callback called although off"); return; }
    const long warm = std::max(DS, 1);
    for (size_t i = 0; i < at.size(); ++i) {
        int prev = i ? at[i - 1] : 0, gap = at[i] - prev;
        bool warming = ord[i] <= warm;   // the very first calls of the process come at every step
        ctx.check(gap >= 1 && gap <= DI, "callback-late", str("callback after ", gap, " expansions, period ", DI));
        if (i) ctx.check(warming ? gap == 1 : gap == DI, "callback-period", str("callbacks ", gap, " expansions apart, period ", DI, " (call ", ord[i], ")"));
    }
    int after = f.expansions - (at.empty() ? 0 : at.back());
    ctx.check(after <= DI, "callback-missing", str(after, " expansions without callback, period ", DI));
    ctx.ev("callbacks", (long)at.size());
    if (at.size() >= 2) ctx.interesting();
}
} // namespace

WORKLOAD("C09", progress_callback, 50000, 1000000, 30,
         "searches with progress callbacks of periods 0,1,2,7,40 and several start periods: trace of expansion counts at each callback, result against a search without; non-trivial: at least 2 callbacks") {
    switch (ctx.rng.range(0, 5)) {
    case 0: progress_case<1, 0>(ctx); break;
    case 1: progress_case<2, 0>(ctx); break;
    case 2: progress_case<7, 3>(ctx); break;
    case 3: progress_case<40, 0>(ctx); break;
    case 4: progress_case<5, 1>(ctx); break;
    default: progress_case<0, 0>(ctx); break;
    }
}

WORKLOAD("C09", time_limit, 10000, 200000, 20,
         "searches whose time is over at once, or generously limited, then again without a limit; non-trivial: the unlimited search finds a path") {
    Rng& r = ctx.rng;
    GMap g = random_map(r, 24);
    std::unique_ptr<SimpleGridMap2d> m = make_map(r, g);
    std::unique_ptr<Planner> p = random_planner(r);
    Query q = gen_query(r, g);
    describe(ctx, g, *p, q);
    p->map(m.get());
    p->limit(1e-9);
    Found none = p->find(q.a, q.b, SearchOptions());
    ctx.check(none.path.empty() && none.exc.empty(), "time-path", "search without any time returned a path or raised " + none.exc);
    ctx.check(none.expansions <= 1, "time-expansions", str(none.expansions, " expansions in no time"));
    p->map(m.get());
    p->limit(3600);
    Found a = p->find(q.a, q.b, SearchOptions());
    p->map(m.get());
    p->limit(-1);
    Found b = p->find(q.a, q.b, SearchOptions());
    std::string diff = same(a, b);
    ctx.check(diff.empty(), "time-result", "search with ample time and without limit: " + diff);
    validate(ctx, g, *p, m->getResolution(), q, b, reference(g, *p, q.sx, q.sy, q.gx, q.gy));
    if (!b.path.empty()) ctx.interesting();
}

WORKLOAD("C09", time_course, 20000, 500000, 20,
         "1-4 searches on one planner under a clock of the harness, which advances by arbitrary amounts at every expansion and between searches, each with the same, another or no time limit: every search ends at the first "
         "expansion after its own time is over, with the best candidate met until then, and is otherwise the one without limit; non-trivial: a search out of time in the middle and one in time on the same planner") {
    Rng& r = ctx.rng;
    GMap g = random_map(r, 20);
    std::unique_ptr<SimpleGridMap2d> m = make_map(r, g);
    int n = r.chance(0.5) ? 4 : 8; char heur = "21imo"[r.next() % 5];
    bool debug = r.chance(0.5);                 // a planner with a progress callback after every expansion
    typedef AStar2dSearch_Debug<1, 0, DirectNeighborhood<8, 1> > S;
    auto create = [&]() -> std::unique_ptr<Planner> {
        if (!debug) return make(n, 1, heur);
        std::unique_ptr<Planner> p(new Impl<S>());
        p->n = 8; p->d = 1; p->heur = '2';
        return p;
    };
    std::unique_ptr<Planner> p = create();
    ctx.in << p->name() << (debug ? " callback" : " custom") << " map " << g.dump();
    ctx.mix(g.hash());
    double limit = -1;
    bool cut = false, full = false;
    FakeClock clock;
    int rounds = (int)r.range(1, 4);
    for (int k = 0; k < rounds; ++k) {
        p->map(m.get());
        if (k == 0 || r.chance(0.5)) { limit = r.chance(0.15) ? -1 : std::exp(r.real(std::log(0.05), std::log(1e5))); p->limit(limit); }
        if (r.chance(0.6)) FakeClock::advance(r.real(0, 3) * std::fabs(limit));
        Query q = gen_query(r, g);
        SearchOptions so;
        if (r.chance(0.4)) so.oversearch_distance = r.real(0.1, 6) * m->getResolution();
        std::vector<GoalSpec> gs;
        for (int i = (int)r.range(1, 4); i > 0; --i) { GoalSpec s = {(double)r.range(0, g.w - 1), (double)r.range(0, g.h - 1), r.real(0, 10), r.chance(0.3)}; gs.push_back(s); }
        auto search = [&](Planner& pl, std::function<void()> cb) {
            if (debug) return pl.find_cb(q.a, q.b, cb, so);
            test_hook() = cb;
            Found f = pl.find_custom(q.a, gs, so, &q.b);
            test_hook() = std::function<void()>();
            return f;
        };
        std::unique_ptr<Planner> ref = create();
        ref->map(m.get());
        Found whole = search(*ref, [] {});
        // the time is over after expansion `at`, never if 0; before, steps of arbitrary size that together stay in the limit
        long at = r.chance(0.3) ? 0 : r.range(1, std::max(1, whole.expansions + 1)), calls = 0;
        double left = limit > 0 ? limit - 0.002 : 1e6, over = limit > 0 ? limit * r.real(0, 2) + 0.002 : 1e6;
        ctx.in << "; limit " << limit << " search " << q.a.x << "," << q.a.y << " to " << q.b.x << "," << q.b.y << " over at " << at << " of " << whole.expansions;
        ctx.mixd(limit); ctx.mix(at); ctx.mixd(q.a.x); ctx.mixd(q.b.y);
        size_t cands = 0;
        FakeClock::reads() = 0;
        Found f = search(*p, [&] {
            ++calls;
            if (calls == at) { FakeClock::advance(left + over); left = 0; cands = p->candidates(); }
            else if (left > 0 && r.chance(0.3)) { double s = r.chance(0.1) ? left : r.real(0, left / 4); FakeClock::advance(s); left -= s; }
        });
        ctx.ev("clock_reads", FakeClock::reads());
        bool ended = limit > 0 && at > 0 && at < whole.expansions;     // there were expansions left when the time was over
        if (!ended) {
            std::string diff = same(f, whole);
            if (limit > 0 && at > 0 && at == whole.expansions && whole.path.empty() == f.path.empty()) diff = "";
            ctx.check(diff.empty(), "time-left", "search within its time: " + diff);
            if (!whole.path.empty()) full = true;
            continue;
        }
        ctx.check(f.exc.empty(), "time-exception", "search out of time raised " + f.exc);
        ctx.check(f.expansions == at, "time-late", str(f.expansions, " expansions, the time was over at ", at));
        ctx.check(f.path.empty() == f.candidates.empty(), "time-candidates", str(f.candidates.size(), " candidates, path of ", f.path.size(), " nodes"));
        if (debug) ctx.check(f.candidates.size() == cands, "time-candidates", str(f.candidates.size(), " candidates, ", cands, " when the time was over"));
        else ctx.check(f.candidates.size() >= cands && f.candidates.size() <= cands + gs.size(), "time-candidates", str(f.candidates.size(), " candidates, ", cands, " when the time was over"));
        if (!f.path.empty()) {
            validate_chain(ctx, g, *p, m->getResolution(), f.path, (int)q.a.x, (int)q.a.y);
            auto cost = [&](const PPath& c) {
                if (debug) return std::hypot(c.back().x - (int)q.b.x, c.back().y - (int)q.b.y);
                double best = INF;
                for (auto& s : gs) if (s.x == c.back().x && s.y == c.back().y) { best = s.cost; break; }
                return best;
            };
            double best = INF;
            for (auto& c : f.candidates) best = std::min(best, cost(c));
            ctx.check(cost(f.path) == best, "time-best", str("the result costs ", cost(f.path), ", a candidate ", best));
            ctx.ev("candidates in time");
        }
        cut = true;
        ctx.ev("out of time");
    }
    if (cut && full) ctx.interesting();
}

WORKLOAD("C09", oversearch, 60000, 1500000, 40,
         "searches with an extended-search distance: candidate list, result and candidate callback against the reference set of cells that must/may be candidates; non-trivial: at least 2 candidates") {
    Rng& r = ctx.rng;
    GMap g = random_map(r, 26);
    std::unique_ptr<SimpleGridMap2d> m = make_map(r, g);
    double res = m->getResolution();
    std::unique_ptr<Planner> p = random_planner(r, true);
    Query q = gen_query(r, g);
    describe(ctx, g, *p, q);
    SearchOptions so;
    so.oversearch_distance = res * (r.chance(0.2) ? r.real(20, 200) : r.real(0.01, 6));
    ctx.in << " oversearch " << so.oversearch_distance / res << " cells";
    Ref ref = reference(g, *p, q.sx, q.sy, q.gx, q.gy);
    double F1 = best_f(g, *p, ref, res, q);
    p->map(m.get());
    std::vector<PPath> seen;
    int stop_at = r.chance(0.4) ? (int)r.range(1, 4) : -1;
    if (stop_at > 0 || r.chance(0.3)) p->candidate_cb([&](const PPath& c) { seen.push_back(c); return (int)seen.size() == stop_at; });
    else stop_at = 0;
    Found f = p->find(q.a, q.b, so);
    ctx.check(f.exc.empty() || ref.blocked, "exception", "valid request raised " + f.exc);
    bool want = !ref.blocked && std::isfinite(F1);
    ctx.check(f.path.empty() == !want, "oversearch-exists", str("path ", !f.path.empty(), ", wanted ", want));
    if (!want) { ctx.check(f.candidates.empty(), "oversearch-candidates", "candidates without a path"); return; }
    auto dist = [&](const PPath& c) { return std::hypot(c.back().x - q.gx, c.back().y - q.gy); };
    validate_chain(ctx, g, *p, res, f.path, q.sx, q.sy);
    double tol = 1e-6 * (1 + F1);
    std::set<std::pair<int, int> > have;
    for (auto& c : f.candidates) {
        double cost = validate_chain(ctx, g, *p, res, c, q.sx, q.sy);
        int x = (int)c.back().x, y = (int)c.back().y;
        ctx.check(near_goal(x, y, q.gx, q.gy, p->d), "candidate-goal", "candidate does not end at the goal");
        ctx.check(cost <= res * ref.at(x, y) + tol, "candidate-cost", "candidate is not a cheapest path to its end");
        // the last popped node may exceed the bound: it ends the search
        have.insert(std::make_pair(x, y));
    }
    if (stop_at == 0 || stop_at == -1 || (int)seen.size() < stop_at) {
        for (size_t i = 0; i + 1 < f.candidates.size(); ++i)
            ctx.check(dist(f.candidates[i]) <= dist(f.candidates[i + 1]) + 1e-12, "candidate-order", "candidates not sorted by distance to the goal");
        ctx.check(!f.candidates.empty() && std::fabs(dist(f.candidates[0]) - dist(f.path)) < 1e-12, "oversearch-best", "the result is not the best candidate");
        double need = INF;
        int over = 0;
        for (int y = std::max(0, q.gy - p->d); y <= std::min(g.h - 1, q.gy + p->d); ++y)
            for (int x = std::max(0, q.gx - p->d); x <= std::min(g.w - 1, q.gx + p->d); ++x) {
                double ft = res * ref.at(x, y) + p->h(x - q.gx, y - q.gy, res);
                if (ft < F1 + so.oversearch_distance - tol) {
                    need = std::min(need, std::hypot(x - q.gx, y - q.gy));
                    ctx.check(have.count(std::make_pair(x, y)), "candidate-missing", str("cell ", x, ",", y, " within the extended search is no candidate"));
                } else if (ft > F1 + so.oversearch_distance + tol && have.count(std::make_pair(x, y))) ++over;
            }
        ctx.check(over <= 1, "oversearch-range", str(over, " candidates beyond the extended search distance"));
        ctx.check(dist(f.path) <= need + 1e-12, "oversearch-worse", str("result ends ", dist(f.path), " cells from the goal, a candidate ", need));
        std::unique_ptr<Planner> pl = make(p->n, p->d, p->heur);
        pl->map(m.get());
        Found base = pl->find(q.a, q.b, SearchOptions());
        ctx.check(!base.path.empty() && dist(f.path) <= dist(base.path) + 1e-12, "oversearch-base", "extended search is worse than the plain one");
        if (stop_at) ctx.check(seen.size() == f.candidates.size(), "candidate-callback", str(seen.size(), " callbacks, ", f.candidates.size(), " candidates"));
        if (f.candidates.size() >= 2) ctx.interesting();
    } else {
        ctx.check((int)seen.size() == stop_at, "candidate-callback", "callbacks after the one that stopped the search");
        const PPath& last = seen.back();
        ctx.check(last.size() == f.path.size() && last.back().x == f.path.back().x && last.back().y == f.path.back().y, "candidate-stop", "the result is not the accepted candidate");
        ctx.ev("stopped_by_callback");
        if (stop_at >= 2) ctx.interesting();
    }
    for (auto& c : seen) validate_chain(ctx, g, *p, res, c, q.sx, q.sy);
    ctx.ev("candidates", (long)f.candidates.size());
}

WORKLOAD("C09", goal_candidates, 40000, 1000000, 30,
         "custom goal tests offering candidates with arbitrary costs, with and without extended search and stop cells: result is the cheapest candidate met, against reference distances; non-trivial: at least 2 candidates reachable") {
    Rng& r = ctx.rng;
    GMap g = random_map(r, 26);
    std::unique_ptr<SimpleGridMap2d> m = make_map(r, g);
    double res = m->getResolution();
    std::unique_ptr<Planner> p = random_planner(r, true);
    Query q = gen_query(r, g);
    q.gx = q.sx; q.gy = q.sy;
    describe(ctx, g, *p, q);
    p->map(m.get());
    std::vector<GoalSpec> gs;
    std::set<std::pair<int, int> > used;
    int n = (int)r.range(0, 7);
    for (int i = 0; i < n; ++i) {
        std::pair<int, int> c = pick_cell(r, g, r.chance(0.9));
        if (!used.insert(c).second) continue;
        GoalSpec s = {(double)c.first, (double)c.second, r.chance(0.1) ? 0.0 : r.real(0, 100), r.chance(0.15)};
        gs.push_back(s);
        ctx.in << " goal " << s.x << "," << s.y << " cost " << s.cost << (s.stop ? " stop" : "");
    }
    SearchOptions so;
    if (r.chance(0.6)) so.oversearch_distance = res * r.real(0.1, 15);
    ctx.in << " oversearch " << so.oversearch_distance / res;
    ctx.mixd(so.oversearch_distance); ctx.mix(gs.size());
    Found f = p->find_custom(q.a, gs, so, 0);
    Ref ref = reference(g, *p, q.sx, q.sy, q.sx, q.sy);
    // g values of the goals; the search expands by g
    double first = INF, stop = INF;
    int reach = 0;
    if (!ref.blocked) for (auto& s : gs) {
        double d = res * ref.at((int)s.x, (int)s.y);
        if (std::isfinite(d)) { ++reach; first = std::min(first, d); if (s.stop) stop = std::min(stop, d); }
    }
    double tol = 1e-6 * (1 + (std::isfinite(first) ? first : 0));
    ctx.check(f.path.empty() == !std::isfinite(first), "goal-candidates-exist", str("path ", !f.path.empty(), " with ", reach, " reachable goals"));
    if (f.path.empty()) return;
    validate_chain(ctx, g, *p, res, f.path, q.sx, q.sy);
    double limit = std::min(stop, so.oversearch_distance != 0 ? first + so.oversearch_distance : INF);
    double must = INF, got = INF, first_cost = INF;
    for (auto& s : gs) {
        double d = res * ref.at((int)s.x, (int)s.y);
        if (!std::isfinite(d)) continue;
        if (d < limit - tol) must = std::min(must, s.cost);
        if (d <= first + 1e-12) first_cost = std::min(first_cost, s.cost);
        if (s.x == f.path.back().x && s.y == f.path.back().y) got = s.cost;
    }
    ctx.check(std::isfinite(got), "goal-candidate", "path does not end at an offered goal");
    ctx.check(got <= must, "goal-candidate-best", str("result costs ", got, ", a goal met before costs ", must));
    double dl = res * ref.at((int)f.path.back().x, (int)f.path.back().y);
    ctx.check(f.path.back().g <= dl + tol, "goal-candidate-length", "path to the candidate is not the cheapest");
    if (reach >= 2) ctx.interesting();
    ctx.ev("goals_reachable", reach);
}

// ---------------------------------------------------------------- C35

WORKLOAD("C35", aborted_searches, 15000, 400000, 20,
         "history of 1-4 searches on one planner that are aborted (thread interrupted before or during the search, exception from progress callback or goal test after k expansions), each compared with the "
         "search's own length, then a search after assigning a map again against a fresh planner; non-trivial: an abort in the middle of a search and a path afterwards") {
    Rng& r = ctx.rng;
    GMap g = random_map(r, 20);
    std::unique_ptr<SimpleGridMap2d> m = make_map(r, g);
    int n = r.chance(0.5) ? 4 : 8; char heur = "21imo"[r.next() % 5];
    bool debug = r.chance(0.4);                 // a planner with a progress callback after every expansion
    typedef AStar2dSearch_Debug<1, 0, DirectNeighborhood<8, 1> > S;
    auto create = [&]() -> std::unique_ptr<Planner> {
        if (!debug) return make(n, 1, heur);
        std::unique_ptr<Planner> p(new Impl<S>());
        p->n = 8; p->d = 1; p->heur = '2';
        return p;
    };
    std::unique_ptr<Planner> p = create();
    ctx.in << p->name() << (debug ? " callback" : "") << " map " << g.dump();
    ctx.mix(g.hash());
    bool middle = false, after = false;
    int rounds = (int)r.range(1, 4);
    for (int k = 0; k < rounds; ++k) {
        p->map(m.get());
        Query q = gen_query(r, g);
        SearchOptions so;
        if (r.chance(0.2)) so.oversearch_distance = r.real(0.1, 5) * m->getResolution();
        std::vector<GoalSpec> gs;
        for (int i = (int)r.range(1, 3); i > 0; --i) { GoalSpec s = {(double)r.range(0, g.w - 1), (double)r.range(0, g.h - 1), r.real(0, 10), r.chance(0.5)}; gs.push_back(s); }
        bool custom = !debug && r.chance(0.6);
        auto plain = [&](Planner& pl, boost::function<void()> cb) { return custom ? pl.find_custom(q.a, gs, so, &q.b) : debug ? pl.find_cb(q.a, q.b, cb, so) : pl.find(q.a, q.b, so); };
        // the same search undisturbed
        std::unique_ptr<Planner> ref = create();
        ref->map(m.get());
        Found whole;
        in_thread(false, [&](boost::thread&) { whole = plain(*ref, [] {}); });
        int how = (custom || debug) ? (int)r.range(0, 2) : 0;     // 0 interrupted before, 1 interrupted at, 2 exception at
        long at = r.range(1, std::max(1, whole.expansions + 1)), calls = 0;
        int when = -1;                          // expansions at the disturbance
        Found f;
        ctx.in << "; search " << q.a.x << "," << q.a.y << " to " << q.b.x << "," << q.b.y << (custom ? " custom " : " ") << "abort " << how << " at " << at << " of " << whole.expansions;
        ctx.mixd(q.a.x); ctx.mixd(q.b.x); ctx.mix(how * 100000 + at);
        in_thread(how == 0, [&](boost::thread& self) {
            std::function<void()> disturb = [&] {
                if (++calls != at || how == 0) return;
                when = p->expansions();
                if (how == 1) self.interrupt(); else throw Abort();
            };
            if (custom) test_hook() = disturb;
            f = plain(*p, disturb);
            test_hook() = std::function<void()>();
        });
        if (!whole.exc.empty()) { ctx.check(f.exc == whole.exc, "abort-exception", "an invalid request raised '" + f.exc + "' instead of '" + whole.exc + "'"); }
        else if (how == 0) {
            ctx.check(f.path.empty(), "interrupted-path", "an interrupted thread's search returned a path");
            ctx.check(f.expansions == 0, "interrupted-late", str(f.expansions, " expansions in an interrupted thread"));
            ctx.check(f.exc == (whole.expansions ? "interrupted" : ""), "interrupted", "search in an interrupted thread ended with '" + f.exc + "'");
            ctx.ev("interrupted before");
        } else if (when < 0) {                  // over before
            std::string diff = same(f, whole);
            ctx.check(diff.empty(), "undisturbed", "search that was not disturbed: " + diff);
        } else if (how == 2) {
            ctx.check(f.exc == "abort", "exception-lost", "the exception of a callback ended as '" + f.exc + "'");
            ctx.check(f.expansions == when && f.path.empty(), "exception-late", str(f.expansions, " expansions after an exception at ", when));
            ctx.ev("exceptions"); if (when > 1) middle = true;
        } else {
            ctx.check(f.expansions == when, "interrupted-late", str(f.expansions, " expansions after an interruption at ", when));
            if (when < whole.expansions) { ctx.check(f.exc == "interrupted" && f.path.empty(), "interrupted", "an interrupted search ended with '" + f.exc + "'"); middle = middle || when > 1; }
            else { std::string diff = f.exc == "interrupted" ? "" : same(f, whole); ctx.check(diff.empty(), "undisturbed", "search interrupted at its end: " + diff); }
            ctx.ev("interrupted during");
        }
        if (r.chance(0.3)) {                    // without a map assignment: no claim about the result
            in_thread(false, [&](boost::thread&) { plain(*p, [] {}); });
        }
        if (r.chance(0.3)) { g = random_map(r, 20); m = make_map(r, g); ctx.in << "; map " << g.dump(); }
        p->map(m.get());
        ctx.check(p->candidates() == 0, "stale-candidates", "solutions of an aborted search are still offered after a map was assigned");
        std::unique_ptr<Planner> fresh = create();
        fresh->map(m.get());
        Query q2 = gen_query(r, g);
        ctx.in << "; then " << q2.a.x << "," << q2.a.y << " to " << q2.b.x << "," << q2.b.y;
        Found a = p->find(q2.a, q2.b, so), b = fresh->find(q2.a, q2.b, so);
        std::string diff = same(a, b);
        ctx.check(diff.empty(), "unusable", "after aborted searches: " + diff);
        if (!b.path.empty()) after = true;
        ctx.ev("compared_searches");
    }
    if (middle && after) ctx.interesting();
}
