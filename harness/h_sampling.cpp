// Sampling planner (C20) and goal regions (C21).
#include "maps.hpp"
#include <memory>
#include <iostream>
#include <cslibs_path_planning/ReedsShepp/CurveGenerator.h>
#include <cslibs_path_planning/common/SimpleGridMap2d.h>
#include <cslibs_path_planning/common/MapMath.h>
#include <cslibs_path_planning/sampling/SamplingPlanner.h>
#include <cslibs_path_planning/sampling/RingGoalRegion.h>
#include <cslibs_path_planning/sampling/CentroidRadiusGoalRegion.h>

using namespace vf;
using namespace lib_path;

namespace {

struct Offer { Pose2d p; double gain; };

// A region that offers listed goals, or those of another region, and records what it was asked for.
struct Recorder : GoalRegion {
    std::vector<Offer> list, given;
    GoalRegion* inner;
    unsigned inits, asked;
    bool set_gain, ended, beyond;
    Recorder() : inner(0), inits(0), asked(0), set_gain(true), ended(false), beyond(false) {}
    void init(unsigned n) { ++inits; asked = n; given.clear(); ended = false; if (inner) inner->init(n); }
    bool getNextGoal(Pose2d& g, double& gain) {
        if (ended) beyond = true;
        if (inner) {
            if (!inner->getNextGoal(g, gain)) { ended = true; return false; }
        } else {
            if (given.size() >= list.size() || given.size() >= asked) { ended = true; return false; }
            g = list[given.size()].p;
            if (set_gain) gain = list[given.size()].gain;
        }
        given.push_back(Offer{g, gain});
        return true;
    }
};

struct Quiet {              // the ring region prints every goal
    std::streambuf* o;
    std::ostringstream sink;
    Quiet() : o(std::cout.rdbuf(sink.rdbuf())) {}
    ~Quiet() { std::cout.rdbuf(o); }
};

void configure(CurveGenerator& g, Rng r, double res) {
    std::ostringstream o;
    static const char* P[] = {"LSL", "LSR", "RSL", "RSR", "|LSL", "|RSR", "|L|S|R", "LRL", "RLR", "LR|L", "R|LR"};
    int n = (int)r.range(1, 8);
    for (int i = 0; i < n; ++i) g.parse(P[r.range(0, 10)], o);
    g.set_circle_radius(res * r.real(2, 10));
    g.set_max_waypoint_distance(res * r.real(0.5, 4));
    g.set_cost_backwards(r.pickd({1, 2}));
    g.set_cost_curve(r.pickd({1, 1.3}));
    g.set_max_curve_arc(r.pickd({M_PI, 2 * M_PI, 20}));
}

} // namespace

WORKLOAD("C20", sampling, 8000, 200000, 6,
         "listed, ring and approach regions with goals inside and outside of maps with obstacles; minimum over the offered goals recomputed") {
    Rng& r = ctx.rng;
    double res = r.pickd({0.05, 0.1, 0.5, 1});
    int side = r.chance(0.03) ? 900 : 70, w = (int)r.range(20, side), h = (int)r.range(20, side);
    GMap g = gen_map(r, w, h, r.chance(0.5) ? 0 : (int)r.picki({1, 3, 6, 7}));
    if (r.chance(0.3)) for (auto& v : g.c) if (r.chance(0.8)) v = FREE;
    SimpleGridMap2d m(w, h, res);
    m.setLowerThreshold(100); m.setUpperThreshold(200);
    m.setOrigin(Point2d(r.real(-20, 20), r.real(-20, 20)));
    Point2d org = m.getOrigin();
    for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) m.setValue(x, y, g.at(x, y) == FREE ? 0 : g.at(x, y) == OCC ? 255 : 150);
    CurveGenerator gen, ref;
    uint64_t cs = r.next();
    configure(gen, Rng(cs), res); configure(ref, Rng(cs), res);
    SamplingPlanner pl(&gen, &m);
    auto place = [&](bool in) {
        double x, y;
        do {
            x = in ? r.real(0.01, w - 0.01) : r.real(-0.6 * w, 1.6 * w); y = in ? r.real(0.01, h - 0.01) : r.real(-0.6 * h, 1.6 * h);
        } while (!in && x > -0.01 && y > -0.01 && x < w + 0.01 && y < h + 0.01);
        return Pose2d(org.x + x * res, org.y + y * res, r.real(-M_PI, M_PI));
    };
    auto inside = [&](const Pose2d& p) {
        double x = (p.x - org.x) / res, y = (p.y - org.y) / res;
        return x >= 0 && y >= 0 && x < w && y < h;
    };
    ctx.in << w << "x" << h << " res=" << res << " gen=" << cs;
    Recorder reg;
    for (int rep = 0; rep < 3; ++rep) {
        int kind = (int)r.range(0, 3);
        std::unique_ptr<GoalRegion> inner;
        Pose2d a = place(!r.chance(0.05));
        reg.list.clear(); reg.inner = 0; reg.set_gain = true;
        unsigned n = r.chance(0.1) ? (unsigned)r.range(0, 1) : (unsigned)r.range(1, ctx.idx % 400 == 3 ? 400 : 25);
        if (kind <= 1) {
            int k = (int)r.range(0, 12);
            double far = r.chance(0.1) ? r.pickd({1e3, 1e5, 1e8}) : 1;         // costs beyond any sentinel
            for (int i = 0; i < k; ++i) {
                if (i && r.chance(0.1)) { reg.list.push_back(reg.list[r.range(0, i - 1)]); if (r.chance(0.3)) reg.list.back().gain *= 1.01; }
                else reg.list.push_back(Offer{place(!r.chance(0.2)), r.chance(0.03) ? 0 : far * r.pickd({1, 1, 0.1, 2, 10}) * r.real(0.5, 1.5)});
            }
            if (r.chance(0.2)) reg.set_gain = false;
        } else if (kind == 2) {
            Pose2d c = place(true);
            inner.reset(new RingGoalRegion(Point2d(c.x, c.y), res * r.real(2, 15) * (r.chance(0.5) ? 1 : -1), res * r.real(0, 3)));
        } else {
            Pose2d c = place(true);
            inner.reset(new CentroidRadiusGoalRegion(Point2d(a.x, a.y), Point2d(c.x, c.y), res * r.real(0, 10), r.real(-6, 6)));
        }
        reg.inner = inner.get();
        unsigned before = reg.inits;
        reg.given.clear();
        reg.beyond = false;
        std::unique_ptr<Curve> c;
        { Quiet q; c.reset(pl.createPath(a, &reg, (int)n)); }
        ctx.in << " | kind " << kind << " n=" << n << " from " << a.x << "," << a.y << "," << a.theta << " goals " << reg.given.size();
        ctx.mixd(a.x); ctx.mix(kind);
        if (!inside(a)) {
            ctx.check(!c, "start-outside", "a curve from a start outside of the map");
            ctx.ev("start outside");
            continue;
        }
        ctx.interesting();
        ctx.check(reg.inits == before + 1 && reg.asked == n, "init", str("the region was initialised ", reg.inits - before, " times, with ", reg.asked, " goals instead of ", n));
        ctx.check(reg.ended, "exhausted", "the planner did not consider all goals of the region");
        double best = INFINITY;
        std::vector<std::pair<double, double> > costs;       // of every connectable goal: cost, weight
        std::vector<size_t> who;
        Pose2d ac((a.x - org.x) / res, (a.y - org.y) / res, a.theta);
        for (size_t i = 0; i < reg.given.size(); ++i) {
            const Offer& o = reg.given[i];
            if (!inside(o.p)) { ctx.ev("goals outside"); continue; }
            Pose2d gc((o.p.x - org.x) / res, (o.p.y - org.y) / res, o.p.theta);
            std::unique_ptr<Curve> k(ref.find_path(ac, gc, &m));
            if (!k || !k->is_valid()) { ctx.ev("goals not connected"); continue; }
            ctx.ev("goals connected");
            double gain = reg.set_gain || reg.inner ? o.gain : 1.0;
            costs.push_back(std::make_pair(gain * k->weight(), k->weight()));
            who.push_back(i);
            best = std::min(best, costs.back().first);
        }
        ctx.check((bool)c == std::isfinite(best), c ? "unexpected" : "missed", c ? "a curve although no offered goal can be connected" : "no curve although an offered goal can be connected");
        if (!c) continue;
        ctx.ev("curves");
        Pose2d cg = c->goal(), cst = c->start();
        bool found = false;
        for (size_t i = 0; i < who.size() && !found; ++i) {
            const Pose2d& p = reg.given[who[i]].p;
            if (std::hypot(cg.x - (p.x - org.x) / res, cg.y - (p.y - org.y) / res) < 1e-6 && cg.theta == p.theta) {
                ctx.check(c->weight() == costs[i].second, "weight", str("weight ", c->weight(), ", the curve to this goal has ", costs[i].second));
                found = costs[i].first <= best * (1 + 1e-9);
            }
        }
        ctx.check(found, "not-cheapest", str("the returned curve (weight ", c->weight(), ") is not the one of the cheapest goal (cost ", best, ")"));
        ctx.check(std::hypot(cst.x - ac.x, cst.y - ac.y) < 1e-6 && cst.theta == a.theta, "start", "the curve does not begin at the start");
    }
}

WORKLOAD("C21", ring_region, 20000, 500000, 6, "ring regions of both directions, repeatedly initialised; every offered goal against the ring's geometry") {
    Rng& r = ctx.rng;
    Point2d c(r.real(-100, 100), r.real(-100, 100));
    double radius = r.real(0.05, 20) * (r.chance(0.5) ? 1 : -1), width = r.chance(0.2) ? 0 : r.real(0, 1.9 * std::fabs(radius));
    ctx.in << "center " << c.x << "," << c.y << " radius " << radius << " width " << width;
    ctx.mixd(radius); ctx.mixd(width);
    ctx.interesting();
    Quiet q;
    RingGoalRegion reg(c, radius, width);
    for (int rep = 0; rep < 3; ++rep) {
        unsigned n = 20;
        if (rep || r.chance(0.8)) { n = r.chance(0.1) ? (unsigned)r.range(0, 2) : (unsigned)r.range(1, ctx.idx % 2000 == 5 ? 70000 : ctx.idx % 20 == 7 ? 800 : 60); reg.init(n); }
        else if (rep) continue;
        double R = std::fabs(radius), lo = R - width / 2 - 1e-9 * (1 + R), hi = R + width / 2 + 1e-9 * (1 + R);
        std::vector<double> as;
        for (unsigned i = 0; i < n; ++i) {
            Pose2d g; double gain = 1;
            ctx.check(reg.getNextGoal(g, gain), "too-few", str("only ", i, " goals of ", n));
            double dx = g.x - c.x, dy = g.y - c.y, d = std::hypot(dx, dy), al = std::atan2(dy, dx);
            ctx.check(d >= lo && d <= hi, "radius", str("goal ", i, " at distance ", d, " of a ring of radius ", R, " and width ", width));
            ctx.check(angdist(g.theta, al + (radius < 0 ? -M_PI / 2 : M_PI / 2)) < 1e-6, "heading", str("goal ", i, " has heading ", g.theta, " at angle ", al));
            ctx.check(g.theta >= -M_PI - 1e-9 && g.theta <= M_PI + 1e-9, "range", "heading is not normalised");
            ctx.check(gain >= 1, "gain", str("gain ", gain));
            if (!as.empty()) ctx.check(angdist(al, as.back() + 2 * M_PI / n) < 1e-6, "spacing", str("goal ", i, " of ", n, " at angle ", al, " after ", as.back()));
            as.push_back(al);
            ctx.ev("ring goals");
        }
        Pose2d g; double gain;
        int leave = (int)r.range(0, 2);
        for (int k = 0; k < leave; ++k) ctx.check(!reg.getNextGoal(g, gain), "too-many", str("more than ", n, " goals"));
    }
}

WORKLOAD("C21", approach_region, 40000, 1000000, 6, "approach regions of all angles, repeatedly initialised; every offered goal against the region's geometry") {
    Rng& r = ctx.rng;
    Point2d s(r.real(-50, 50), r.real(-50, 50)), c(r.real(-50, 50), r.real(-50, 50));
    if (r.chance(0.1)) c = r.chance(0.5) ? Point2d(s.x - r.real(0, 9), s.y) : Point2d(s.x, s.y + r.real(0, 9));
    double radius = r.chance(0.1) ? 0 : r.real(0, 20), angle = r.chance(0.15) ? 0 : r.chance(0.1) ? r.pickd({M_PI, -M_PI, 2 * M_PI, 1e-7}) : r.real(-2 * M_PI, 2 * M_PI);
    ctx.in << "from " << s.x << "," << s.y << " to " << c.x << "," << c.y << " radius " << radius << " angle " << angle;
    ctx.mixd(radius); ctx.mixd(angle); ctx.mixd(s.x);
    ctx.interesting();
    CentroidRadiusGoalRegion reg(s, c, radius, angle);
    double direct = std::atan2(c.y - s.y, c.x - s.x), A = std::fabs(angle);
    Pose2d g; double gain = 1;
    if (r.chance(0.2)) ctx.check(!reg.getNextGoal(g, gain), "uninitialised", "a region that was not initialised offers a goal");
    for (int rep = 0; rep < 3; ++rep) {
        unsigned ask = r.chance(0.2) ? (unsigned)r.range(0, 2) : (unsigned)r.range(1, ctx.idx % 2000 == 5 ? 70000 : ctx.idx % 20 == 7 ? 800 : 60), n = (ask <= 1 || A < 1e-6) ? 1 : ask;
        reg.init(ask);
        for (unsigned i = 0; i < n; ++i) {
            gain = -1;
            ctx.check(reg.getNextGoal(g, gain), "too-few", str("only ", i, " goals of ", n));
            double want = n == 1 ? direct : direct - A / 2 + i * A / (n - 1);
            ctx.check(angdist(g.theta, want) < 1e-6, "heading", str("goal ", i, " of ", n, " has heading ", g.theta, " instead of ", wrap(want)));
            ctx.check(std::hypot(g.x - (c.x - radius * std::cos(want)), g.y - (c.y - radius * std::sin(want))) < 1e-5, "position", str("goal ", i, " of ", n, " at ", g.x, ",", g.y));
            double wg = n == 1 ? 1 : 1 + std::fabs(2.0 * i / (n - 1) - 1);
            ctx.check(gain >= 1 - 1e-9 && gain <= 2 + 1e-9, "gain-range", str("goal ", i, " of ", n, " has gain ", gain));
            ctx.check(std::fabs(gain - wg) < 1e-9, "gain", str("goal ", i, " of ", n, " has gain ", gain, " instead of ", wg));
            ctx.ev("approach goals");
        }
        int leave = (int)r.range(0, 2);
        for (int k = 0; k < leave; ++k) ctx.check(!reg.getNextGoal(g, gain), "too-many", str("more than ", n, " goals"));
    }
}
