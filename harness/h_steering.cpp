// Steering (hybrid A*) searches: C10, C11, C12, C34, C35; their histories (C07, C08) and state lookup (C13);
// obstacle heuristic: C14.
#include "maps.hpp"
#include "in_thread.hpp"
#include <deque>
#include <memory>
#include <unordered_map>
#include <Eigen/Core>
#include <cslibs_path_planning/generic/Algorithms.hpp>
#include <cslibs_path_planning/generic/SteeringNeighborhood.hpp>
#include <cslibs_path_planning/generic/DynamicSteeringNeighborhood.h>
#include <cslibs_path_planning/generic/ReedsSheppExpansion.hpp>
#include <cslibs_path_planning/common/SimpleGridMap2d.h>

using namespace vf;
using namespace lib_path;

namespace {

const double INF = std::numeric_limits<double>::infinity();

// The vehicle a planner is configured for.
struct Veh {
    double step, la;                 // meters
    int max_steer, delta, steps;     // degrees, degrees, number of steering changes per step
    bool fwd, bwd, reversed;
    int straight;                    // straight parts around a direction change (0: not demanded)
    bool backward_start_segment;     // a backward start begins with a straight segment of length la
    double goal_pos, goal_line, goal_angle;
    bool goal_shift;                 // reversed: a backward end is shifted by la
};

struct Snap {                        // a search node at some moment
    double x, y, theta, dist, h;
    int steer, depth;
    bool fwd;
    char custom;
    const void *self, *prev;
    bool curve;
};
typedef std::vector<Snap> SPath;

struct OverBudget {};
struct Abort {};                     // thrown in the middle of a search

// What the monitors need to know while a search runs.
struct Watch {
    Ctx* ctx;
    const GMap* g;
    const Veh* v;
    double res;
    SearchOptions so;
    long budget, events, added, rejected, switches, improved;
    long clock;
    std::unordered_map<const void*, long> stamp;     // last time the node got a new pose/parent
    std::unordered_map<const void*, int> left;       // straight parts still to drive after a direction change
    bool check_kin, check_col, check_cost;
    long expanded, disturb_at;           // expansions seen; the one during which the search is disturbed
    boost::thread* interrupt;            // by an interruption of its thread, or else by an exception
    Watch() : expanded(0), disturb_at(-1), interrupt(0), ctx(0), g(0), v(0), res(1), budget(0), events(0), added(0), rejected(0), switches(0), improved(0), clock(0),
              check_kin(false), check_col(false), check_cost(false) {}
    int skips() const { return (int)(0.5 / res); }
    bool occ(double x, double y) const { return g->occ((int)std::floor(x), (int)std::floor(y)); }
};
thread_local Watch* watch = 0;

template <class N> Snap snap(const N* n) {
    Snap s;
    s.x = n->x; s.y = n->y; s.theta = n->theta; s.dist = n->distance; s.h = n->h;
    s.steer = n->steering_angle; s.depth = n->depth; s.fwd = n->forward; s.custom = n->custom;
    s.self = n; s.prev = n->prev; s.curve = false;
    return s;
}

// Motion of the vehicle model (all lengths in cells).
void drive(double x, double y, double t, double ds, int steer, double la, double& ox, double& oy, double& ot) {
    if (steer == 0) { ox = x + ds * std::cos(t); oy = y + ds * std::sin(t); ot = t; return; }
    double r = la / std::tan(steer * M_PI / 180.0);
    ot = t + ds / r;
    ox = x + r * (std::sin(ot) - std::sin(t));
    oy = y - r * (std::cos(ot) - std::cos(t));
}
// Signed length (cells) of the motion that ends in a node with the given flags; start: it leaves a start pose.
double length_of(const Veh& v, double res, bool fwd, bool from_start) {
    double l = v.step;
    if (v.backward_start_segment && !v.reversed && from_start && !fwd) l = v.la;
    return (fwd ? 1 : -1) * (v.reversed ? -1 : 1) * l / res;
}
bool steer_change_ok(const Veh& v, int a, int b) {
    if (std::abs(b) > v.max_steer) return false;
    for (int k = 0; k <= v.steps; ++k) {
        int d = v.delta * k;
        if (b == std::max(-v.max_steer, std::min(v.max_steer, a + d)) || b == std::max(-v.max_steer, std::min(v.max_steer, a - d))) return true;
    }
    return false;
}
// A solid obstacle on the straight line a-b that the planner's cell skip cannot miss.
bool solid_obstacle(const Watch& w, double ax, double ay, double bx, double by) {
    double len = std::hypot(bx - ax, by - ay);
    int n = (int)std::ceil(len * 4) + 1;
    double run = 0, inc = len / n;
    // in cells along the dominant axis: every (skips+1)-th cell is looked at
    double scale = len > 0 ? std::max(std::fabs(bx - ax), std::fabs(by - ay)) / len : 1;
    for (int i = 0; i <= n; ++i) {
        double x = ax + (bx - ax) * i / n, y = ay + (by - ay) * i / n;
        int cx = (int)std::floor(x), cy = (int)std::floor(y);
        bool all = true;
        for (int dy = -1; dy <= 1 && all; ++dy) for (int dx = -1; dx <= 1 && all; ++dx) all = w.g->occ(cx + dx, cy + dy);
        run = all ? run + inc * scale : 0;
        if (run > w.skips() + 2.5) return true;
    }
    return false;
}

template <class Node> void check_transition(Watch& w, const Snap& p, const Node* pnode, const Node* n, double delta) {
    Ctx& c = *w.ctx;
    const Veh& v = *w.v;
    Snap s = snap(n);
    bool start = p.prev == 0;
    std::string ctxt;
    auto desc = [&]() {
        return str("(", p.x, ",", p.y, ",", p.theta, " steer ", p.steer, p.fwd ? " fwd" : " bwd", ") -> (", s.x, ",", s.y, ",", s.theta, " steer ", s.steer,
                   s.fwd ? " fwd" : " bwd", ")");
    };
    c.check(s.prev == p.self, "prev", "an added node has another predecessor than the expanded one");
    double ds = length_of(v, w.res, s.fwd, start);
    bool change = p.fwd != s.fwd;
    int next_left = 0;
    if (w.check_kin) {
        c.check(s.fwd ? v.fwd : v.bwd, "forbidden-direction", "a motion in a forbidden direction: " + desc());
        c.check(steer_change_ok(v, p.steer, s.steer), "steering", str("steering angle changes by more than allowed: ", desc()));
        double x, y, t;
        drive(p.x, p.y, p.theta, ds, s.steer, v.la / w.res, x, y, t);
        double tol = 1e-6 * (1 + std::fabs(p.x) + std::fabs(p.y) + std::fabs(ds));
        c.check(std::fabs(x - s.x) < tol && std::fabs(y - s.y) < tol && angdist(t, s.theta) < 1e-6, "motion",
                str("not a motion of the vehicle: ", desc(), ", expected ", x, ",", y, ",", t));
        if (change && v.straight > 0) {
            c.check(s.steer == 0, "switch-curve", "direction changes on a curve: " + desc());
            // the parts before the change are straight as well
            const Node* q = pnode;
            for (int k = 0; k < v.straight - 1; ++k) {
                c.check(q != 0 && q->prev != 0 && q->steering_angle == 0, "switch-approach", "direction changes without the demanded straight approach: " + desc());
                q = dynamic_cast<const Node*>(q->prev);
            }
        }
        if (v.straight > 0) {
            int left = w.left[p.self];
            if (left > 0) c.check(p.steer == 0 && s.steer == 0 && !change, "switch-leave", str("direction change is not followed by ", left, " straight parts: ", desc()));
            next_left = change ? v.straight - 1 : std::max(0, left - 1);
        }
    }
    w.left[s.self] = next_left;
    if (change) w.switches++;
    if (w.check_cost) {
        double want = std::fabs(ds) * w.res * (s.fwd ? 1 : w.so.penalty_backward) * (change ? w.so.penalty_turn : 1);
        c.check(std::fabs(s.dist - p.dist - want) < 1e-7 * (1 + std::fabs(s.dist)), "cost",
                str("motion ", desc(), " is charged ", s.dist - p.dist, ", not ", want));
    }
    if (w.check_col) {
        c.check(!w.occ(s.x, s.y), "occupied", "the search reaches an occupied cell: " + desc());
        c.check(!solid_obstacle(w, p.x, p.y, s.x, s.y), "through-obstacle", "the search drives through an obstacle: " + desc());
    }
}

// The library's neighborhood, watched: every expansion of the real search passes through here.
template <class N, template <class, class, class, class, int, int> class A, class E> struct Mon;
template <class Alg> struct Hook : public Alg {
    typedef typename Alg::NodeT NodeT;
    struct Add { NodeT* n; double delta; };
    std::vector<Add> adds;
    NeighborhoodBase::ProcessingResult processNeighbor(NodeT* current, NodeT* neighbor, double delta) {
        Watch& w = *watch;
        if (++w.events > w.budget) throw OverBudget();
        bool known = std::isfinite(neighbor->distance);
        NeighborhoodBase::ProcessingResult r = Alg::processNeighbor(current, neighbor, delta);
        if (r == NeighborhoodBase::PR_ADDED_TO_OPEN_LIST) {
            Add a = {neighbor, delta};
            adds.push_back(a);
            w.stamp[neighbor] = ++w.clock;
            if (known) w.improved++;
        } else w.rejected++;
        return r;
    }
};
template <class N, template <class, class, class, class, int, int> class A, class E> struct Mon : public N {
    typedef Hook<A<Mon, E, Pose2d, GridMap2d, 0, 0> > Planner;
    template <class T, class Map, class Node> static void iterateFreeNeighbors(T& algo, Map& map, Node* ref) {
        Planner& p = static_cast<Planner&>(algo);
        Watch& w = *watch;
        p.adds.clear();
        if (++w.expanded == w.disturb_at) { if (w.interrupt) w.interrupt->interrupt(); else throw Abort(); }
        Snap before = snap(ref);
        N::iterateFreeNeighbors(p, map, ref);
        for (size_t i = p.adds.size(); i-- > 0;) {
            bool last = true;
            for (size_t k = i + 1; k < p.adds.size() && last; ++k) last = p.adds[k].n != p.adds[i].n;
            if (!last) continue;
            w.added++;
            check_transition(w, before, ref, p.adds[i].n, p.adds[i].delta);
            Node* n = p.adds[i].n;
            if (w.check_kin) w.ctx->check(map.lookup(n->x, n->y, n->theta, n->steering_angle, n->forward) == n, "slot", "a node's pose belongs to another state");
        }
    }
};

struct SFound { SPath path; std::string exc; bool over; int expansions; SFound() : over(false), expansions(0) {} };

struct SPlanner {
    Veh v;
    std::string name;
    bool curves;
    virtual ~SPlanner() {}
    virtual void map(const GridMap2d* m) = 0;
    virtual void heuristic(int gx, int gy) = 0;
    virtual SFound find(const Pose2d& a, const Pose2d& b, const SearchOptions& so) = 0;
    virtual SFound find_region(const Pose2d& a, bool node, double gx, double gy, double r, const SearchOptions& so) = 0;
};

template <class S> struct Region {
    typedef typename S::NodeT NodeT;
    S* s; double gx, gy, r; Pose2d hg;
    bool terminate(const NodeT* n) const {
        if (std::hypot(n->x - gx, n->y - gy) <= r) { s->addGoalCandidate(n, 0); return true; }
        return false;
    }
    const Pose2d* getHeuristicGoal() const { return &hg; }
};

template <class N, template <class, class, class, class, int, int> class A, class E> struct SImpl : SPlanner {
    typedef typename Mon<N, A, E>::Planner S;
    S s;
    template <class F> SFound run(F f) {
        SFound o;
        try {
            typename S::PathT p = f();
            for (size_t i = 0; i < p.size(); ++i) {
                Snap n = snap(&p[i]);
                n.self = 0;
                n.curve = !std::isfinite(n.dist);
                o.path.push_back(n);
            }
            // identity of the nodes, from their successors
            if (v.reversed) { for (size_t i = 0; i + 1 < o.path.size(); ++i) o.path[i + 1].self = o.path[i].prev; }
            else for (size_t i = 1; i < o.path.size(); ++i) if (!o.path[i].curve) o.path[i - 1].self = o.path[i].prev;
        }
        catch (OverBudget&) { o.over = true; }
        catch (Abort&) { o.exc = "abort"; }
        catch (boost::thread_interrupted&) { o.exc = "interrupted"; }
        catch (typename S::StartOutOfMapException&) { o.exc = "start-out"; }
        catch (typename S::GoalOutOfMapException&) { o.exc = "goal-out"; }
        catch (typename S::StartNotFreeException&) { o.exc = "start-occ"; }
        catch (typename S::GoalNotFreeException&) { o.exc = "goal-occ"; }
        catch (OutsideMapException&) { o.exc = "OutsideMapException"; }
        o.expansions = s.getExpansions();
        return o;
    }
    void map(const GridMap2d* m) { s.setMap(m); }
    void heuristic(int gx, int gy) { S::Heuristic::setMap(&s.getMapManager(), Pose2d(gx, gy, 0)); }
    SFound find(const Pose2d& a, const Pose2d& b, const SearchOptions& so) { return run([&] { return s.findPath(a, b, so); }); }
    SFound find_region(const Pose2d& a, bool node, double gx, double gy, double r, const SearchOptions& so) {
        Region<S> t = {&s, gx, gy, r, Pose2d(gx, gy, 0)};
        if (!node) return run([&] { return s.findPath(a, t, so); });
        typename S::NodeT n;
        S::NodeT::init(n, a);
        n.theta = a.theta;
        return run([&] { return s.findPathWithStartConfiguration(n, t, so); });
    }
};

Veh veh(int dist, int steps, int step_deg, int max_steer, int la, int moves, bool rev, int sds) {
    Veh v;
    v.step = dist / 100.0; v.la = la / 100.0; v.max_steer = max_steer; v.delta = step_deg; v.steps = steps;
    v.fwd = true; v.bwd = moves == 6; v.reversed = rev; v.straight = moves == 6 ? sds : 0; v.backward_start_segment = false;
    v.goal_pos = 0.05; v.goal_line = 0.1; v.goal_angle = M_PI / 8; v.goal_shift = rev;
    return v;
}
template <int D, int SS, int SD, int MS, int LA, int M, bool R, int SDS, template <class, class, class, class, int, int> class A, class E>
std::unique_ptr<SPlanner> mk(const char* name) {
    std::unique_ptr<SPlanner> p(new SImpl<SteeringNeighborhood<D, SS, SD, MS, LA, M, R, SDS>, A, E>());
    p->v = veh(D, SS, SD, MS, LA, M, R, SDS);
    p->name = name;
    p->curves = !std::is_same<E, NoExpansion>::value;
    return p;
}
template <template <class, class, class, class, int, int> class A, class E> std::unique_ptr<SPlanner> mkdyn(Rng& r, const char* name) {
    typedef DynamicSteeringNeighborhood D;
    D::distance_step = r.pickd({0.4, 0.3, 0.5, 0.8, 1.0});
    D::MAX_STEER_ANGLE = r.picki({60, 45, 30});
    D::STEER_DELTA = r.picki({15, 10, 20, 30});
    D::steer_steps = r.picki({2, 1, 3});
    D::LA = r.pickd({1.2, 0.6, 1.0, 0.8});
    D::allow_forward = true; D::allow_backward = r.chance(0.5);
    if (D::allow_backward && r.chance(0.25)) D::allow_forward = false;
    D::reversed = r.chance(0.3);
    D::goal_dist_threshold = r.pickd({0.05, 0.2, 0.4, 0.8});
    D::goal_angle_threshold = r.pickd({M_PI / 8, M_PI / 4, 0.2});
    std::unique_ptr<SPlanner> p(new SImpl<D, A, E>());
    Veh v;
    v.step = D::distance_step; v.la = D::LA; v.max_steer = D::MAX_STEER_ANGLE; v.delta = (int)D::STEER_DELTA; v.steps = D::steer_steps;
    v.fwd = D::allow_forward; v.bwd = D::allow_backward; v.reversed = D::reversed; v.straight = 1; v.backward_start_segment = true;
    v.goal_pos = D::goal_dist_threshold; v.goal_line = 0; v.goal_angle = D::goal_angle_threshold; v.goal_shift = false;
    p->v = v; p->curves = !std::is_same<E, NoExpansion>::value;
    p->name = str(name, " step=", v.step, " la=", v.la, " max=", v.max_steer, " delta=", v.delta, "*", v.steps, v.fwd ? " f" : "", v.bwd ? " b" : "",
                  v.reversed ? " rev" : "", " goal ", v.goal_pos, "/", v.goal_angle);
    return p;
}
typedef ReedsSheppExpansion<4, true, false> RS;
typedef ReedsSheppExpansion<2, true, true> RSB;
enum { NKINDS = 12 };
// same kind and same random state: same configuration
std::unique_ptr<SPlanner> make(int kind, Rng r) {
    switch (kind) {
    case 0: return mk<100, 1, 15, 45, 120, 3, false, 1, AStarDynamicSearch, NoExpansion>("s0");
    case 1: return mk<50, 2, 10, 40, 80, 6, false, 2, AStarDynamicSearch, NoExpansion>("s1");
    case 2: return mk<40, 1, 20, 60, 60, 6, true, 2, AStarDynamicSearch, NoExpansion>("s2");
    case 3: return mk<100, 3, 8, 24, 100, 3, true, 1, AStarDynamicSearch, NoExpansion>("s3");
    case 4: return mk<60, 1, 30, 30, 60, 6, false, 3, AStarDynamicSearch, NoExpansion>("s4");
    case 5: return mk<50, 2, 10, 40, 80, 6, false, 2, AStarDynamicHybridHeuristicsSearch, NoExpansion>("s5 hybrid");
    case 6: return mk<80, 1, 25, 50, 90, 3, false, 1, AStarDynamicSearch, RS>("s6 curves");
    case 11: return mk<50, 2, 10, 40, 80, 6, false, 2, AStarDynamicSearch, RSB>("s11 curves");
    case 7: return mkdyn<AStarDynamicHybridHeuristicsSearch, NoExpansion>(r, "dyn hybrid");
    default: return mkdyn<AStarDynamicSearch, NoExpansion>(r, "dyn");
    }
}
bool hybrid(int kind) { return kind == 5 || kind == 7; }

std::unique_ptr<SimpleGridMap2d> make_map(Rng& r, const GMap& g, double res) {
    std::unique_ptr<SimpleGridMap2d> m(new SimpleGridMap2d(g.w, g.h, res));
    int lo = 50, up = 200;
    if (r.chance(0.2)) { lo = (int)r.range(0, 120); up = (int)r.range(lo + 2, 255); m->setLowerThreshold(lo); m->setUpperThreshold(up); }
    for (int y = 0; y < g.h; ++y) for (int x = 0; x < g.w; ++x) m->setValue(x, y, value_of(r, g.at(x, y), lo, up));
    return m;
}

struct Scene { GMap g; double res; std::unique_ptr<SimpleGridMap2d> m; };
Scene gen_scene(Rng& r, int maxside) {
    Scene s;
    s.res = r.pickd({0.05, 0.1, 0.1, 0.2, 0.25, 0.4, 0.6});
    std::pair<int, int> wh = gen_size(r, maxside);
    int k = r.picki({0, 0, 1, 3, 6, 6, 7, 8, -1});
    s.g = gen_map(r, wh.first, wh.second, k);
    if (k == 1) for (auto& v : s.g.c) if (v == OCC && r.chance(0.8)) v = FREE;     // sparse
    s.m = make_map(r, s.g, s.res);
    return s;
}

// may two poses share a state? (tolerance at the borders)
bool same_state(double x, double y, double t, const Snap& s) {
    auto cell = [](double a, double b) { return std::floor(a) == std::floor(b) || std::floor(a + 1e-6) == std::floor(b + 1e-6) ||
                                         std::floor(a - 1e-6) == std::floor(b - 1e-6) || std::floor(a + 1e-6) == std::floor(b) || std::floor(a - 1e-6) == std::floor(b); };
    if (!cell(x, s.x) || !cell(y, s.y)) return false;
    return angdist(t, s.theta) <= 2 * M_PI / 31 + 1e-6;
}

// C10 on a returned path
void check_drivable(Watch& w, const SPath& path) {
    Ctx& c = *w.ctx;
    const Veh& v = *w.v;
    SPath p = path;
    if (v.reversed) std::reverse(p.begin(), p.end());       // in order of the search
    for (size_t i = 1; i < p.size(); ++i) {
        const Snap &a = p[i - 1], &b = p[i];
        if (b.curve) {
            // analytic tail: a forward curve, headings along the motion
            if (a.curve || i + 1 < p.size()) {
                double d = std::hypot(b.x - a.x, b.y - a.y);
                // the curve begins where the search stopped
                c.check(a.curve ? d * w.res < 0.15 * 1.01 : d < 1e-3, "curve-gap", str("gap of ", d, " cells in the analytic end of the path"));
                c.check(a.curve || (a.fwd && b.fwd), "curve-direction", "a forward curve is appended to a backward motion");
                c.check(a.curve || angdist(a.theta, b.theta) < 1e-3, "curve-turn", "the analytic end of the path begins with another heading");
                if (a.curve && d > 1e-2) {
                    double dir = std::atan2(b.y - a.y, b.x - a.x);
                    double mid = a.theta + wrap(b.theta - a.theta) / 2;
                    c.check(angdist(dir, mid) < 1e-3, "curve-heading", str("the analytic end of the path is not driven along its heading: ", a.x, ",", a.y, ",", a.theta, " -> ", b.x, ",", b.y, ",", b.theta, " direction ", dir));
                    c.check(angdist(a.theta, b.theta) * 1.3 < d * w.res * 1.02 + 1e-6, "curve-radius", "the analytic end of the path is too tight");
                    c.check(b.fwd, "curve-direction", "forward curve flagged as backward");
                }
            }
            continue;
        }
        auto desc = [&]() { return str("(", a.x, ",", a.y, ",", a.theta, " steer ", a.steer, a.fwd ? " fwd" : " bwd", ") -> (", b.x, ",", b.y, ",", b.theta, " steer ",
                                       b.steer, b.fwd ? " fwd" : " bwd", ")"); };
        c.check(b.fwd ? v.fwd : v.bwd, "path-forbidden-direction", "the path drives in a forbidden direction: " + desc());
        c.check(std::abs(b.steer) <= v.max_steer, "path-steering", "the path exceeds the steering limit: " + desc());
        bool start = i == 1;
        double x, y, t;
        drive(b.x, b.y, b.theta, -length_of(v, w.res, b.fwd, start), b.steer, v.la / w.res, x, y, t);
        bool exact = false;
        if (a.self && b.self && w.stamp.count(b.self)) exact = !w.stamp.count(a.self) || w.stamp[a.self] < w.stamp[b.self];
        if (start) exact = true;
        if (exact) {
            double tol = 1e-6 * (1 + std::fabs(b.x) + std::fabs(b.y) + v.step / w.res);
            // the last node before an analytic end takes the heading of the curve
            bool turned = i + 1 < p.size() && p[i + 1].curve;
            if (!turned)
                c.check(std::fabs(x - a.x) < tol && std::fabs(y - a.y) < tol && angdist(t, a.theta) < 1e-6, "path-motion", "the path is not driven by one motion: " + desc());
            c.check(steer_change_ok(v, a.steer, b.steer), "path-steering-change", "the path changes the steering angle too fast: " + desc());
            if (v.straight > 0 && a.fwd != b.fwd) c.check(b.steer == 0, "path-switch", "the path changes direction on a curve: " + desc());
            c.ev("exact motions");
        } else {
            c.check(same_state(x, y, t, a), "path-motion", str("the path is not driven by one motion: ", desc(), ", expected to come from ", x, ",", y, ",", t));
            c.ev("snapped motions");
        }
        if (v.straight > 0 && a.fwd != b.fwd) { c.check(b.steer == 0, "path-switch", "the path changes direction on a curve: " + desc()); c.ev("direction changes"); }
        if (!b.fwd) c.ev("backward motions");
        if (b.steer) c.ev("curved motions");
    }
}
// C11 on a returned path
void check_free(Watch& w, const SPath& p) {
    for (size_t i = 0; i < p.size(); ++i) {
        if (!p[i].curve) {
            w.ctx->check(!w.occ(p[i].x, p[i].y), "path-occupied", str("path pose ", i, " (", p[i].x, ",", p[i].y, ") is in an occupied cell"));
            if (!w.g->in((int)std::floor(p[i].x), (int)std::floor(p[i].y))) w.ctx->ev("poses in the padding");
        }
        else {
            // like every curve (C17): not deep in a region that is not free, not far outside of the map
            int cx = (int)std::floor(p[i].x), cy = (int)std::floor(p[i].y);
            bool in = cx >= -5 && cy >= -5 && cx < w.g->w + 5 && cy < w.g->h + 5, deep = w.g->in(cx, cy);
            for (int dy = -3; dy <= 3 && deep; ++dy) for (int dx = -3; dx <= 3 && deep; ++dx) if (w.g->in(cx + dx, cy + dy) && w.g->free(cx + dx, cy + dy)) deep = false;
            w.ctx->check(in && !deep, "curve-collision", str("analytic end of the path at ", p[i].x, ",", p[i].y, in ? " lies in an obstacle" : " lies outside of the map"));
            w.ctx->ev("analytic poses checked for obstacles");
        }
        if (i && !p[i].curve && !p[i - 1].curve)
            w.ctx->check(!solid_obstacle(w, p[i - 1].x, p[i - 1].y, p[i].x, p[i].y), "path-through-obstacle",
                         str("the path drives through an obstacle at ", p[i].x, ",", p[i].y));
    }
}
// C12 on a returned path
void check_ends(Watch& w, const SPath& path, const Pose2d& a, const Pose2d& b, bool region) {
    Ctx& c = *w.ctx;
    const Veh& v = *w.v;
    SPath p = path;
    Pose2d s = a, g = b;
    if (v.reversed && !region) std::swap(s, g);
    if (v.reversed) std::reverse(p.begin(), p.end());
    const Snap& f = p.front();
    c.check(std::floor(s.x) == f.x && std::floor(s.y) == f.y, "path-start", str("path begins at ", f.x, ",", f.y, ", not in the cell of ", s.x, ",", s.y));
    if (!(p.size() > 1 && p[1].curve)) c.check(angdist(f.theta, s.theta) < 1e-9, "path-start-heading", str("path begins with heading ", f.theta, " instead of ", s.theta));
    if (region) return;
    const Snap& e = p.back();
    double slack_p = 1e-6, slack_t = 1e-9;
    if (w.so.oversearch_distance != 0) { slack_p += 1.5 * w.res; slack_t += 2 * M_PI / 31; }
    if (e.curve) {
        c.check(std::hypot(e.x - std::floor(g.x), e.y - std::floor(g.y)) < 1e-3, "path-goal", str("path ends at ", e.x, ",", e.y, " instead of ", g.x, ",", g.y));
        c.check(angdist(e.theta, g.theta) < 1e-3, "path-goal-heading", str("path ends with heading ", e.theta, " instead of ", g.theta));
        c.ev("analytic ends");
        return;
    }
    c.check(angdist(e.theta, g.theta) <= v.goal_angle + slack_t, "path-goal-heading", str("path ends with heading ", e.theta, " instead of ", g.theta));
    double gx = std::floor(g.x), gy = std::floor(g.y);
    if (v.goal_shift && !e.fwd) { gx -= std::cos(g.theta) * v.la / w.res; gy -= std::sin(g.theta) * v.la / w.res; c.ev("shifted goals"); }
    double d = std::hypot(e.x - gx, e.y - gy) * w.res;
    bool ok = d < v.goal_pos + slack_p;
    if (!ok && v.goal_line > 0 && p.size() > 1) {
        const Snap& q = p[p.size() - 2];
        double dx = e.x - q.x, dy = e.y - q.y, l2 = dx * dx + dy * dy;
        double t = l2 > 0 ? std::max(0.0, std::min(1.0, ((gx - q.x) * dx + (gy - q.y) * dy) / l2)) : 0;
        ok = std::hypot(gx - q.x - t * dx, gy - q.y - t * dy) * w.res < v.goal_line + slack_p;
    }
    c.check(ok, "path-goal", str("path ends at ", e.x, ",", e.y, ", ", d, " m from the goal ", gx, ",", gy));
}

// A pose reached by a random drive, to have goals that can be reached.
Pose2d rollout(Rng& r, const Watch& w, const Pose2d& s, int n) {
    const Veh& v = *w.v;
    double x = std::floor(s.x), y = std::floor(s.y), t = s.theta;
    int steer = 0;
    bool fwd = v.fwd && (!v.bwd || r.chance(0.5));
    Pose2d best(x, y, t);
    for (int i = 0; i < n; ++i) {
        steer = std::max(-v.max_steer, std::min(v.max_steer, steer + v.delta * (int)r.range(-v.steps, v.steps)));
        double nx, ny, nt;
        drive(x, y, t, length_of(v, w.res, fwd, i == 0), (i == 0 && !fwd) ? 0 : steer, v.la / w.res, nx, ny, nt);
        if (nx < -20 || ny < -20 || nx >= w.g->w + 20 || ny >= w.g->h + 20 || w.occ(nx, ny)) break;
        x = nx; y = ny; t = wrap(nt);
        best = Pose2d(x, y, t);
    }
    return best;
}

struct Req { Pose2d a, b; bool region, node; double rx, ry, rr; };
Req gen_req(Rng& r, const Watch& w) {
    Req q;
    std::pair<int, int> p = pick_cell(r, *w.g, true);
    q.a = Pose2d(p.first + r.pickd({0.0, 0.5, 0.99, r.unit()}), p.second + r.pickd({0.0, 0.5, 0.99, r.unit()}), r.chance(0.3) ? r.range(-2, 1) * M_PI / 2 : r.real(-M_PI, M_PI));
    if (r.chance(0.1)) { q.a.x = r.real(-31, w.g->w + 31); q.a.y = r.real(-31, w.g->h + 31); }
    int k = (int)r.range(0, 19);
    q.region = false; q.node = false;
    if (k < 13) q.b = rollout(r, w, q.a, (int)r.range(1, 9));
    else if (k < 15) q.b = Pose2d(std::floor(q.a.x) + r.unit(), std::floor(q.a.y) + r.unit(), r.chance(0.5) ? r.real(-M_PI, M_PI) : q.a.theta);   // same cell
    else if (k < 17) { p = pick_cell(r, *w.g, true); q.b = Pose2d(p.first + r.unit(), p.second + r.unit(), r.real(-M_PI, M_PI)); }
    else { q.b = rollout(r, w, q.a, (int)r.range(2, 12)); q.region = true; q.node = r.chance(0.4); q.rx = q.b.x; q.ry = q.b.y; q.rr = r.real(0.5, 4); }
    if (w.v->reversed && !q.region) std::swap(q.a, q.b);
    return q;
}
SearchOptions gen_opts(Rng& r) {
    SearchOptions so;
    if (r.chance(0.5)) { so.penalty_backward = r.pickd({1.0, 2.5, 1.5, 4.0}); so.penalty_turn = r.pickd({1.0, 4.0, 2.0}); }
    if (r.chance(0.15)) so.oversearch_distance = r.pickd({0.2, 1.0, 3.0});
    return so;
}

SFound search(Ctx& ctx, SPlanner& pl, int kind, const Req& q, Watch& w) {
    watch = &w;
    if (hybrid(kind)) { const Pose2d& g = q.region || !pl.v.reversed ? q.b : q.a; pl.heuristic((int)std::floor(g.x), (int)std::floor(g.y)); }
    SFound f = q.region ? pl.find_region(q.a, q.node, q.rx, q.ry, q.rr, w.so) : pl.find(q.a, q.b, w.so);
    watch = 0;
    ctx.ev("searches");
    ctx.ev("transitions watched", w.added);
    ctx.ev("improved nodes", w.improved);
    ctx.ev("watched direction changes", w.switches);
    if (f.over) ctx.ev("searches stopped by the harness");
    if (!f.path.empty()) { ctx.ev("paths"); ctx.ev("path poses", f.path.size()); ctx.interesting(); }
    return f;
}

// A long way: paths of more than a hundred motions.
void long_way(Rng& r, const Veh& v, Scene& s, Req& q) {
    s.res = r.pickd({0.2, 0.25, 0.4});
    int n = (int)(v.step / s.res * r.real(150, 330)) + 12, k = (int)r.range(3, 12);
    bool turn = r.chance(0.5), back = r.chance(0.5);
    s.g = turn ? GMap(k, n) : GMap(n, k);
    s.m = make_map(r, s.g, s.res);
    double a = r.real(1, 8), b = n - r.real(1, 8), c = k / 2, t = turn ? M_PI / 2 : 0;
    if (back) { std::swap(a, b); t = turn ? -M_PI / 2 : -M_PI; }
    if (v.bwd && (!v.fwd || r.chance(0.5))) t = wrap(t + M_PI);      // driven backward
    q.a = turn ? Pose2d(c, a, t) : Pose2d(a, c, t); q.b = turn ? Pose2d(c, b, t) : Pose2d(b, c, t);
    q.region = q.node = false; q.rx = q.ry = q.rr = 0;
}

void steering_case(Ctx& ctx, char what) {
    Rng& r = ctx.rng;
    Scene s = gen_scene(r, 45);
    int kind = (int)r.range(0, NKINDS - 1);
    std::unique_ptr<SPlanner> pl = make(kind, Rng(r.next()));
    Watch w;
    w.ctx = &ctx; w.g = &s.g; w.v = &pl->v; w.res = s.res; w.so = gen_opts(r);
    w.budget = ctx.thorough ? 60000 : 25000;
    w.check_kin = what == 'k'; w.check_col = what == 'c'; w.check_cost = what == '$';
    bool far = ctx.idx % 30 == 4;
    Req q;
    if (far) { long_way(r, pl->v, s, q); w.g = &s.g; w.res = s.res; ctx.ev("long ways"); }
    pl->map(s.m.get());
    if (!far) q = gen_req(r, w);
    ctx.in << pl->name << " res=" << s.res << " map " << s.g.dump() << " from " << q.a.x << "," << q.a.y << "," << q.a.theta << " to " << q.b.x << "," << q.b.y << "," << q.b.theta
           << (q.region ? str(" region ", q.rr) : "") << " pb=" << w.so.penalty_backward << " pt=" << w.so.penalty_turn << " os=" << w.so.oversearch_distance;
    ctx.mix(s.g.hash()); ctx.mix(kind); ctx.mixd(q.a.x); ctx.mixd(q.b.x); ctx.mixd(q.a.theta);
    SFound f = search(ctx, *pl, kind, q, w);
    if (f.path.size() > 130) ctx.ev("paths of more than 130 poses");
    if (f.path.empty()) return;
    if (what == 'k') check_drivable(w, f.path);
    if (what == 'c') check_free(w, f.path);
    if (what == 'e') check_ends(w, f.path, q.a, q.b, q.region);
    if (what == '$') {
        SPath p = f.path;
        if (pl->v.reversed) std::reverse(p.begin(), p.end());
        for (size_t i = 0; i < p.size(); ++i) {
            if (p[i].curve) break;
            if (i == 0) { ctx.check(p[0].dist == 0, "start-distance", "the start does not have distance 0"); continue; }
            double full = std::fabs(length_of(pl->v, s.res, p[i].fwd, i == 1)) * s.res * (p[i].fwd ? 1 : w.so.penalty_backward);
            // the predecessor may have been improved since
            ctx.check(p[i].dist > p[i - 1].dist + full - 1e-7, "path-distance", str("path pose ", i, " has distance ", p[i].dist, " after ", p[i - 1].dist));
        }
    }
}

// Planners with analytic ends, in scenes where the direct curve is free, blocked by a thick wall or only just clear of one.
void analytic_case(Ctx& ctx, char what) {
    Rng& r = ctx.rng;
    Scene s;
    s.res = r.pickd({0.1, 0.2, 0.25, 0.4});
    int w = (int)r.range(25, 70), h = (int)r.range(25, 70);
    s.g = GMap(w, h);
    for (int n = r.picki({0, 1, 1, 2, 4}); n > 0; --n) {
        int bw = (int)r.range(1, 14), bh = (int)r.range(1, 14), x0 = (int)r.range(0, w - 1), y0 = (int)r.range(0, h - 1);
        rect(s.g, x0, y0, std::min(w - 1, x0 + bw), std::min(h - 1, y0 + bh), r.chance(0.3) ? UNKNOWN : OCC);
    }
    double bx = r.real(3, w - 3), by = r.real(3, h - 3), bt = r.chance(0.3) ? r.range(-2, 1) * M_PI / 2 : r.real(-M_PI, M_PI);
    double ax = r.real(3, w - 3), ay = r.real(3, h - 3), at = r.chance(0.5) ? std::atan2(by - ay, bx - ax) : r.real(-M_PI, M_PI);
    if (r.chance(0.5)) {      // a wall across the way
        double t = r.real(0.3, 0.7);
        int cx = (int)(ax + t * (bx - ax)), cy = (int)(ay + t * (by - ay)), k = (int)r.range(3, 6), l = (int)r.range(4, 40);
        if (std::fabs(bx - ax) > std::fabs(by - ay)) rect(s.g, std::max(0, cx - k), std::max(0, cy - l), std::min(w - 1, cx + k), std::min(h - 1, cy + l), r.chance(0.3) ? UNKNOWN : OCC);
        else rect(s.g, std::max(0, cx - l), std::max(0, cy - k), std::min(w - 1, cx + l), std::min(h - 1, cy + k), r.chance(0.3) ? UNKNOWN : OCC);
    }
    rect(s.g, std::max(0, (int)ax - 2), std::max(0, (int)ay - 2), std::min(w - 1, (int)ax + 2), std::min(h - 1, (int)ay + 2), FREE);
    rect(s.g, std::max(0, (int)bx - 2), std::max(0, (int)by - 2), std::min(w - 1, (int)bx + 2), std::min(h - 1, (int)by + 2), FREE);
    s.m = make_map(r, s.g, s.res);
    int kind = r.picki({6, 11});
    std::unique_ptr<SPlanner> pl = make(kind, Rng(r.next()));
    Watch wt;
    wt.ctx = &ctx; wt.g = &s.g; wt.v = &pl->v; wt.res = s.res; wt.so = gen_opts(r); wt.so.oversearch_distance = 0;
    wt.budget = ctx.thorough ? 12000 : 4000;
    wt.check_kin = what == 'k'; wt.check_col = what == 'c';
    pl->map(s.m.get());
    int reps = (int)r.range(1, 2);
    for (int i = 0; i < reps; ++i) {
        Req q;
        q.a = Pose2d(ax, ay, at); q.b = Pose2d(bx, by, bt); q.region = q.node = false;
        ctx.in << pl->name << " res=" << s.res << " map " << s.g.dump() << " from " << q.a.x << "," << q.a.y << "," << q.a.theta << " to " << q.b.x << "," << q.b.y << "," << q.b.theta;
        ctx.mix(s.g.hash()); ctx.mix(kind); ctx.mixd(ax); ctx.mixd(bx);
        SFound f = search(ctx, *pl, kind, q, wt);
        pl->map(s.m.get());
        for (auto& p : f.path) if (p.curve) { ctx.ev("paths with an analytic end"); break; }
        if (!f.path.empty()) {
            if (what == 'k') check_drivable(wt, f.path);
            if (what == 'c') check_free(wt, f.path);
            if (what == 'e') check_ends(wt, f.path, q.a, q.b, false);
        }
        wt.stamp.clear();
        // the next request of this planner
        std::swap(ax, bx); std::swap(ay, by); at = bt + (r.chance(0.5) ? M_PI : 0); bt = r.real(-M_PI, M_PI);
    }
}

} // namespace

WORKLOAD("C10", analytic_motions, 700, 15000, 1,
         "steering searches with analytic ends, walls across the way: every transition and every path checked against the vehicle model and the curve's radius") {
    analytic_case(ctx, 'k');
}
WORKLOAD("C11", analytic_collisions, 700, 15000, 1,
         "steering searches with analytic ends, walls across the way: no pose of the path in an occupied cell, no pose of the curve deep in a region that is not free") {
    analytic_case(ctx, 'c');
}
WORKLOAD("C12", analytic_goals, 700, 15000, 1,
         "steering searches with analytic ends: both ends of every path checked") {
    analytic_case(ctx, 'e');
}

WORKLOAD("C10", steering_motions, 1500, 40000, 3,
         "steering searches of 12 planner kinds on random maps: every transition of the search and every path checked against the vehicle model") {
    steering_case(ctx, 'k');
}
WORKLOAD("C11", steering_collisions, 1500, 40000, 2,
         "steering searches among obstacles: every transition of the search and every path checked against the raw map") {
    steering_case(ctx, 'c');
}
WORKLOAD("C12", steering_ends, 1800, 40000, 2,
         "steering searches incl. same-cell and rolled-out goals: both ends of every path checked") {
    steering_case(ctx, 'e');
}
WORKLOAD("C34", steering_costs, 1500, 40000, 2,
         "steering searches: the distance charged for every transition checked against length and penalties") {
    steering_case(ctx, '$');
}

// A start behind a wall thicker than anything the planner may skip: nothing outside is ever reached.
WORKLOAD("C12", steering_walled, 400, 8000, 1,
         "start inside a closed wall, goal outside of it: the search must come back with an empty path") {
    Rng& r = ctx.rng;
    double res = r.pickd({0.25, 0.4, 0.6, 1.1});
    int skips = (int)(0.5 / res), thick = skips + 3;
    int in = (int)r.range(2, 7), margin = (int)r.range(1, 6), side = in + 2 * thick + 2 * margin;
    GMap g(side, side);
    rect(g, margin, margin, side - 1 - margin, side - 1 - margin, OCC);
    rect(g, margin + thick, margin + thick, side - 1 - margin - thick, side - 1 - margin - thick, FREE);
    std::unique_ptr<SimpleGridMap2d> m = make_map(r, g, res);
    int kind = (int)r.range(0, NKINDS - 1);
    if (kind == 6 || kind == 11) kind = 0;
    std::unique_ptr<SPlanner> pl = make(kind, Rng(r.next()));
    Watch w;
    w.ctx = &ctx; w.g = &g; w.v = &pl->v; w.res = res; w.so = gen_opts(r); w.budget = 400000; w.check_col = true;
    int lo = margin + thick, hi = side - 1 - margin - thick;
    Pose2d a(r.range(lo, hi) + r.unit(), r.range(lo, hi) + r.unit(), r.real(-M_PI, M_PI)), b;
    do b = Pose2d(r.real(-30, side + 30), r.real(-30, side + 30), r.real(-M_PI, M_PI));
    while (b.x > margin - 3 && b.y > margin - 3 && b.x < side - margin + 3 && b.y < side - margin + 3);
    Req q; q.a = a; q.b = b; q.region = q.node = false;
    if (pl->v.reversed) std::swap(q.a, q.b);
    ctx.in << pl->name << " res=" << res << " map " << g.dump() << " from " << q.a.x << "," << q.a.y << "," << q.a.theta << " to " << q.b.x << "," << q.b.y << "," << q.b.theta;
    ctx.mixd(a.x); ctx.mix(kind); ctx.mixd(b.x);
    pl->map(m.get());
    SFound f = search(ctx, *pl, kind, q, w);
    ctx.check(f.path.empty(), "path-through-wall", "a path was returned although the start is walled in");
    if (!f.over) { ctx.interesting(); ctx.ev("exhausted searches"); }
}

// The planner's own line checks, on lines with known answers.
WORKLOAD("C11", line_checks, 6000, 200000, 6,
         "the state space's line queries on random maps (incl. smaller than its padding): clear lines must pass, solid obstacles and blocked ends must not") {
    Rng& r = ctx.rng;
    typedef DynamicDirectionalStateSpaceManager<DirectionalNode<SteeringNode<Node<Pose2d> > > > Mgr;
    Scene s = gen_scene(r, 90);
    double res = r.chance(0.6) ? r.pickd({0.55, 0.7, 1.0, 2.0}) : s.res;
    if (r.chance(0.4)) res = r.pickd({0.03, 0.05, 0.1, 0.16, 0.25, 0.3});
    Watch w; w.g = &s.g; w.res = res;
    int skips = w.skips();
    // solid blocks just too large for the skip
    std::vector<std::pair<double, double> > blocks;
    if (r.chance(0.5)) {
        int unk = r.chance(0.3) ? UNKNOWN : OCC;
        if (r.chance(0.5)) for (auto& v : s.g.c) v = FREE;
        for (int i = (int)r.range(1, 3); i > 0; --i) {
            int bw = skips + (int)r.range(5, 9), bh = skips + (int)r.range(5, 9);
            if (bw > s.g.w || bh > s.g.h) continue;
            int x0 = (int)r.range(0, s.g.w - bw), y0 = (int)r.range(0, s.g.h - bh);
            for (int y = y0; y < y0 + bh; ++y) for (int x = x0; x < x0 + bw; ++x) s.g.at(x, y) = unk;
            blocks.push_back(std::make_pair(x0 + bw / 2.0, y0 + bh / 2.0));
        }
    }
    s.m.reset(); s.m = make_map(r, s.g, res);
    Mgr m;
    m.setMap(s.m.get());
    ctx.in << "res=" << res << " map " << s.g.dump();
    ctx.mix(s.g.hash()); ctx.mixd(res);
    for (int k = 0; k < 12; ++k) {
        double ax = r.real(-31, s.g.w + 31), ay = r.real(-31, s.g.h + 31), bx, by;
        if (r.chance(0.7)) { ax = r.real(0, s.g.w); ay = r.real(0, s.g.h); }
        if (r.chance(0.8)) { bx = ax + r.real(-20, 20); by = ay + r.real(-20, 20); } else { bx = r.real(-31, s.g.w + 31); by = r.real(-31, s.g.h + 31); }
        if (!blocks.empty() && r.chance(0.6)) {   // through a block
            std::pair<double, double> c = blocks[r.next() % blocks.size()];
            double t = r.real(-M_PI, M_PI), o = r.real(-2, 2), l1 = r.real(2, 30), l2 = r.real(2, 30);
            c.first -= o * std::sin(t); c.second += o * std::cos(t);
            ax = c.first - l1 * std::cos(t); ay = c.second - l1 * std::sin(t); bx = c.first + l2 * std::cos(t); by = c.second + l2 * std::sin(t);
            ax = std::max(-31.0, std::min(s.g.w + 31.0, ax)); bx = std::max(-31.0, std::min(s.g.w + 31.0, bx));
            ay = std::max(-31.0, std::min(s.g.h + 31.0, ay)); by = std::max(-31.0, std::min(s.g.h + 31.0, by));
        }
        if (r.chance(0.1)) { ax = std::floor(ax); bx = std::floor(bx); ay = std::floor(ay); by = std::floor(by); }
        // what the queries have to know: cells around the line (1 cell around), and its end
        bool occ_any = false, notfree_any = false;
        double len = std::max(std::fabs(std::floor(bx) - std::floor(ax)), std::fabs(std::floor(by) - std::floor(ay)));
        int n = (int)len * 4 + 4;
        double run_occ = 0, run_notfree = 0, max_occ = 0, max_notfree = 0, inc = len / n;
        for (int i = 0; i <= n; ++i) {
            double x = std::floor(ax) + (std::floor(bx) - std::floor(ax)) * i / n + 0.5, y = std::floor(ay) + (std::floor(by) - std::floor(ay)) * i / n + 0.5;
            int cx = (int)std::floor(x), cy = (int)std::floor(y);
            bool all_occ = true, all_nf = true;
            for (int dy = -1; dy <= 1; ++dy) for (int dx = -1; dx <= 1; ++dx) {
                bool o = s.g.occ(cx + dx, cy + dy), f = s.g.free(cx + dx, cy + dy);
                occ_any |= o; notfree_any |= !f; all_occ &= o; all_nf &= !f;
            }
            run_occ = all_occ ? run_occ + inc : 0; run_notfree = all_nf ? run_notfree + inc : 0;
            max_occ = std::max(max_occ, run_occ); max_notfree = std::max(max_notfree, run_notfree);
        }
        bool end_occ = s.g.occ((int)std::floor(bx), (int)std::floor(by)), end_free = s.g.free((int)std::floor(bx), (int)std::floor(by));
        bool fu = m.isFreeOrUnknown(ax, ay, bx, by), fr = m.isFree(ax, ay, bx, by), oc = m.isOccupied(ax, ay, bx, by);
        std::string l = str(" on the line ", ax, ",", ay, " - ", bx, ",", by);
        ctx.ev("lines");
        ctx.check(fu == !oc, "line-complement", "isOccupied and isFreeOrUnknown disagree" + l);
        if (fr) ctx.check(fu, "line-implies", "a free line is not free or unknown" + l);
        if (!occ_any) { ctx.check(fu, "line-clear", "a clear line is reported as blocked" + l); ctx.ev("clear lines"); }
        if (!notfree_any) { ctx.check(fr, "line-free", "a free line is not reported as free" + l); ctx.ev("free lines"); }
        if (end_occ) { ctx.check(!fu, "line-end", "a line ending in an occupied cell passes" + l); ctx.ev("blocked ends"); }
        if (!end_free) ctx.check(!fr, "line-end-free", "a line ending in a cell that is not free passes as free" + l);
        if (max_occ > skips + 2) { ctx.check(!fu, "line-solid", "a line through a solid obstacle passes" + l); ctx.ev("solid obstacles"); ctx.interesting(); }
        if (max_notfree > skips + 2) ctx.check(!fr, "line-solid-free", "a line through a region that is not free passes as free" + l);
    }
}

WORKLOAD("C07", steering_history, 250, 5000, 1,
         "one steering planner over sequences of maps (growing, shrinking, other contents) vs a fresh planner per search") {
    Rng& r = ctx.rng;
    int kind = r.picki({0, 1, 2, 3, 4, 5, 6, 7, 8, 9});
    uint64_t cfg = r.next();
    std::unique_ptr<SPlanner> reused = make(kind, Rng(cfg));
    std::vector<Scene> scenes;
    int n = (int)r.range(2, 4);
    ctx.in << reused->name;
    for (int i = 0; i < n; ++i) {
        if (i == 0 || r.chance(0.6)) scenes.push_back(gen_scene(r, 30));
        else {
            Scene s; s.g = scenes.back().g; s.res = scenes.back().res;
            for (auto& v : s.g.c) if (r.chance(0.1)) v = (uint8_t)r.range(0, 2);
            s.m = make_map(r, s.g, s.res);
            scenes.push_back(std::move(s));
        }
        Scene& s = scenes.back();
        Watch w, w2;
        w.ctx = &ctx; w.g = &s.g; w.v = &reused->v; w.res = s.res; w.so = gen_opts(r); w.budget = 8000;
        w2 = w;
        Req q = gen_req(r, w);
        ctx.in << " | res=" << s.res << " map " << s.g.dump() << " from " << q.a.x << "," << q.a.y << "," << q.a.theta << " to " << q.b.x << "," << q.b.y << "," << q.b.theta;
        ctx.mix(s.g.hash()); ctx.mixd(q.a.x); ctx.mixd(q.b.x);
        reused->map(s.m.get());
        SFound f = search(ctx, *reused, kind, q, w);
        std::unique_ptr<SPlanner> fresh = make(kind, Rng(cfg));
        fresh->map(s.m.get());
        SFound g = search(ctx, *fresh, kind, q, w2);
        ctx.check(f.exc == g.exc, "history-exception", str("reused planner: '", f.exc, "', fresh planner: '", g.exc, "'"));
        ctx.check(f.over == g.over, "history-work", "reused and fresh planner do not expand the same");
        ctx.check(f.path.size() == g.path.size(), "history-path", str("reused planner: ", f.path.size(), " poses, fresh planner: ", g.path.size()));
        for (size_t k = 0; k < f.path.size(); ++k)
            ctx.check(f.path[k].x == g.path[k].x && f.path[k].y == g.path[k].y && f.path[k].theta == g.path[k].theta && f.path[k].fwd == g.path[k].fwd &&
                      f.path[k].steer == g.path[k].steer, "history-path", str("reused and fresh planner differ at pose ", k));
        if (i && !f.path.empty()) ctx.ev("reused paths");
    }
}

WORKLOAD("C07", steering_interleaved, 200, 4000, 1,
         "two or three steering planners on maps of different cell sizes, their searches interleaved with each other and with map assignments in any order vs a fresh planner per search") {
    Rng& r = ctx.rng;
    int n = (int)r.range(2, 3);
    struct One { int kind; uint64_t cfg; std::unique_ptr<SPlanner> pl; Scene s; };
    std::vector<One> ps(n);
    int dyn = -1;
    for (auto& o : ps) {
        o.kind = r.picki({0, 1, 2, 3, 4, 6, 6, 8});
        o.cfg = r.next();
        if (o.kind == 8) { if (dyn >= 0) o.kind = 0; dyn = (int)(&o - &ps[0]); }   // one configuration per process
        o.s = gen_scene(r, 24);
    }
    for (auto& o : ps) { o.pl = make(o.kind, Rng(o.cfg)); o.pl->map(o.s.m.get()); ctx.in << o.pl->name << " res=" << o.s.res << " map " << o.s.g.dump() << " | "; ctx.mix(o.s.g.hash()); }
    double last = -1;
    std::vector<bool> ready(n, true);
    for (int i = (int)r.range(3, 7); i > 0; --i) {
        int at = (int)r.range(0, n - 1);
        One& o = ps[at];
        if (!ready[at] || r.chance(0.2)) { o.pl->map(o.s.m.get()); ctx.in << " map of " << at; ready[at] = true; continue; }
        ready[at] = false;      // a search follows a map assignment, other planners may act in between
        Watch w, w2;
        w.ctx = &ctx; w.g = &o.s.g; w.v = &o.pl->v; w.res = o.s.res; w.so = gen_opts(r); w.budget = 5000;
        w.check_kin = w.check_col = w.check_cost = true;
        w2 = w;
        Req q = gen_req(r, w);
        ctx.in << " search of " << at << " from " << q.a.x << "," << q.a.y << "," << q.a.theta << " to " << q.b.x << "," << q.b.y << "," << q.b.theta;
        ctx.mixd(q.a.x); ctx.mixd(q.b.x);
        SFound f = search(ctx, *o.pl, o.kind, q, w);
        std::unique_ptr<SPlanner> fresh = make(o.kind, Rng(o.cfg));
        fresh->map(o.s.m.get());
        SFound g = search(ctx, *fresh, o.kind, q, w2);
        ctx.check(f.exc == g.exc, "history-exception", str("interleaved planner: '", f.exc, "', fresh planner: '", g.exc, "'"));
        ctx.check(f.over == g.over && f.expansions == g.expansions, "history-work", str("interleaved and fresh planner do not expand the same: ", f.over, g.over, " ", f.expansions, " ", g.expansions, " ", f.path.size(), " ", g.path.size(), " ", f.exc));
        ctx.check(f.path.size() == g.path.size(), "history-path", str("interleaved planner: ", f.path.size(), " poses, fresh planner: ", g.path.size()));
        for (size_t k = 0; k < f.path.size(); ++k)
            ctx.check(f.path[k].x == g.path[k].x && f.path[k].y == g.path[k].y && f.path[k].theta == g.path[k].theta && f.path[k].fwd == g.path[k].fwd &&
                      f.path[k].steer == g.path[k].steer, "history-path", str("interleaved and fresh planner differ at pose ", k));
        if (last > 0 && last != o.s.res && !f.path.empty()) { ctx.interesting(); ctx.ev("paths after another cell size"); }
        last = o.s.res;
    }
}

WORKLOAD("C35", steering_aborted, 300, 6000, 1,
         "one steering planner whose searches are aborted (thread interrupted before or during the search, exception in the middle of an expansion), then searches on the same or another map vs a fresh planner") {
    Rng& r = ctx.rng;
    int kind = r.picki({0, 1, 2, 3, 4, 5, 6, 7, 8, 9});
    uint64_t cfg = r.next();
    std::unique_ptr<SPlanner> pl = make(kind, Rng(cfg));
    Scene s = gen_scene(r, 26);
    ctx.in << pl->name;
    bool middle = false;
    for (int i = (int)r.range(1, 3); i > 0; --i) {
        Watch base;
        base.ctx = &ctx; base.g = &s.g; base.v = &pl->v; base.res = s.res; base.so = gen_opts(r); base.budget = 5000;
        Req q = gen_req(r, base);
        ctx.in << " | res=" << s.res << " map " << s.g.dump() << " from " << q.a.x << "," << q.a.y << "," << q.a.theta << " to " << q.b.x << "," << q.b.y << "," << q.b.theta;
        ctx.mix(s.g.hash()); ctx.mixd(q.a.x); ctx.mixd(q.b.x);
        std::unique_ptr<SPlanner> ref = make(kind, Rng(cfg));
        ref->map(s.m.get());
        Watch w0 = base, w1 = base;
        SFound whole = search(ctx, *ref, kind, q, w0);
        int how = (int)r.range(0, 2);           // 0 interrupted before, 1 interrupted at, 2 exception at
        if (how) w1.disturb_at = r.range(1, std::max(1L, w0.expanded));
        ctx.in << " abort " << how << " at " << w1.disturb_at << " of " << w0.expanded;
        pl->map(s.m.get());
        SFound f;
        in_thread(how == 0, [&](boost::thread& self) {
            if (how == 1) w1.interrupt = &self;
            try { f = search(ctx, *pl, kind, q, w1); } catch (CaseFailed&) { f.exc = "failed"; }
        });
        if (f.exc == "failed") ctx.fail(ctx.fail_key, ctx.fail_msg);
        if (!whole.exc.empty()) ctx.check(f.exc == whole.exc, "abort-exception", "an invalid request raised '" + f.exc + "' instead of '" + whole.exc + "'");
        else if (how == 0) {
            ctx.check(w1.expanded == 0 && f.path.empty(), "interrupted-late", str(w1.expanded, " expansions in an interrupted thread"));
            ctx.check(f.exc == (whole.expansions || whole.over ? "interrupted" : ""), "interrupted", "search in an interrupted thread ended with '" + f.exc + "'");
            ctx.ev("interrupted before");
        } else if (how == 2 && w0.expanded) {
            ctx.check(f.exc == "abort" && f.path.empty() && w1.expanded == w1.disturb_at, "exception-lost", "an exception during an expansion ended as '" + f.exc + "'");
            ctx.ev("exceptions"); middle = true;
        } else if (w1.disturb_at < w0.expanded) {
            ctx.check(f.exc == "interrupted" && f.path.empty(), "interrupted", "an interrupted search ended with '" + f.exc + "'");
            ctx.check(w1.expanded == w1.disturb_at, "interrupted-late", str(w1.expanded, " expansions after an interruption at ", w1.disturb_at));
            ctx.ev("interrupted during"); middle = true;
        }
        if (r.chance(0.4)) s = gen_scene(r, 26);
        Watch w2;
        w2.ctx = &ctx; w2.g = &s.g; w2.v = &pl->v; w2.res = s.res; w2.so = gen_opts(r); w2.budget = 5000;
        Watch w3 = w2;
        Req q2 = gen_req(r, w2);
        ctx.in << " then res=" << s.res << " map " << s.g.dump() << " from " << q2.a.x << "," << q2.a.y << "," << q2.a.theta << " to " << q2.b.x << "," << q2.b.y << "," << q2.b.theta;
        pl->map(s.m.get());
        SFound a = search(ctx, *pl, kind, q2, w2);
        std::unique_ptr<SPlanner> fresh = make(kind, Rng(cfg));
        fresh->map(s.m.get());
        SFound b = search(ctx, *fresh, kind, q2, w3);
        ctx.check(a.exc == b.exc, "unusable", str("planner after an aborted search: '", a.exc, "', fresh planner: '", b.exc, "'"));
        ctx.check(a.over == b.over && a.expansions == b.expansions, "unusable", "after an aborted search the planner expands differently than a fresh one");
        ctx.check(a.path.size() == b.path.size(), "unusable", str("planner after an aborted search: ", a.path.size(), " poses, fresh planner: ", b.path.size()));
        for (size_t k = 0; k < a.path.size(); ++k)
            ctx.check(a.path[k].x == b.path[k].x && a.path[k].y == b.path[k].y && a.path[k].theta == b.path[k].theta && a.path[k].fwd == b.path[k].fwd && a.path[k].steer == b.path[k].steer,
                      "unusable", str("planner after an aborted search and fresh planner differ at pose ", k));
    }
    if (!middle) ctx.nontrivial = false;
}

WORKLOAD("C08", steering_invalid, 400, 8000, 1,
         "steering requests with start or goal outside of the padded map raise the planner's exceptions; valid requests afterwards are unaffected") {
    Rng& r = ctx.rng;
    int kind = r.picki({0, 1, 2, 3, 4, 8, 9});
    uint64_t cfg = r.next();
    std::unique_ptr<SPlanner> pl = make(kind, Rng(cfg));
    Scene s = gen_scene(r, 40);
    Watch w;
    w.ctx = &ctx; w.g = &s.g; w.v = &pl->v; w.res = s.res; w.budget = 4000;
    Req q = gen_req(r, w);
    q.region = false;
    auto outside = [&]() {
        double x = r.real(-31, s.g.w + 31), y = r.real(-31, s.g.h + 31);
        double far = r.pickd({0.0001, 0.5, 1, 7, 100, 5000});
        switch (r.range(0, 3)) { case 0: x = -32 - far; break; case 1: y = -32 - far; break; case 2: x = s.g.w + 32 + far - 0.0001; break; default: y = s.g.h + 32 + far - 0.0001; }
        return Pose2d(x, y, r.real(-M_PI, M_PI));
    };
    bool bad_start = r.chance(0.5);
    Req bad = q;
    if (r.chance(0.4)) {                    // goal tests: only the start can be outside
        bad_start = true;
        bad.region = true; bad.node = r.chance(0.5); bad.rx = q.b.x; bad.ry = q.b.y; bad.rr = r.real(0.5, 3);
        ctx.in << (bad.node ? "node to region " : "pose to region ");
    }
    if (bad_start) bad.a = outside(); else bad.b = outside();
    // start and goal must not be occupied, else the search has nothing to begin with
    ctx.in << pl->name << " res=" << s.res << " map " << s.g.dump() << " from " << bad.a.x << "," << bad.a.y << " to " << bad.b.x << "," << bad.b.y;
    ctx.mix(s.g.hash()); ctx.mixd(bad.a.x); ctx.mixd(bad.b.y);
    ctx.interesting();
    pl->map(s.m.get());
    SFound f = search(ctx, *pl, kind, bad, w);
    // a reversed planner searches from the goal
    std::string want = bad.region || (bad_start != pl->v.reversed) ? "start-out" : "goal-out";
    ctx.check(f.path.empty(), "path-outside", "a path from or to a pose outside of the map");
    ctx.check(f.exc == want, "exception", str("expected ", want, ", got '", f.exc, "'"));
    ctx.ev("invalid requests");
    pl->map(s.m.get());
    Watch w1 = w, w2 = w;
    w1.events = w2.events = w1.clock = w2.clock = 0; w1.stamp.clear(); w2.stamp.clear();
    SFound a = search(ctx, *pl, kind, q, w1);
    std::unique_ptr<SPlanner> fresh = make(kind, Rng(cfg));
    fresh->map(s.m.get());
    SFound b = search(ctx, *fresh, kind, q, w2);
    ctx.check(a.exc == b.exc && a.over == b.over && a.path.size() == b.path.size(), "after-invalid", "after an invalid request the planner answers differently from a fresh one");
    for (size_t k = 0; k < a.path.size(); ++k) ctx.check(a.path[k].x == b.path[k].x && a.path[k].theta == b.path[k].theta, "after-invalid", "after an invalid request the path differs from a fresh planner's");
}

WORKLOAD("C13", lookup_dynamic, 1500, 40000, 4,
         "state lookup and membership of the lazily allocated state space, in and around the padded map") {
    Rng& r = ctx.rng;
    typedef DirectionalNode<SteeringNode<Node<Pose2d> > > NodeT;
    typedef DynamicDirectionalStateSpaceManager<NodeT> Mgr;
    GMap g(r.chance(0.4) ? r.picki({1, 31, 32, 33, 63, 64, 65, 96}) : (int)r.range(1, 100), r.chance(0.4) ? r.picki({1, 31, 32, 33, 63, 64, 65, 96}) : (int)r.range(1, 100));
    std::unique_ptr<SimpleGridMap2d> m = make_map(r, g, 0.1);
    Mgr mgr;
    mgr.setMap(m.get());
    const int P = 32;
    ctx.in << g.w << "x" << g.h;
    ctx.mix(g.w); ctx.mix(g.h); ctx.mix(r.next());
    ctx.interesting();
    typedef std::tuple<int, int, int, bool> Key;
    std::map<Key, const NodeT*> byKey;
    std::map<const NodeT*, Key> byNode;
    auto coord = [&](int n) {
        switch (r.range(0, 6)) {
        case 0: return (double)r.picki({-P - 2, -P - 1, -P, -P + 1, -1, 0, 1, n - 1, n, n + P - 1, n + P, n + P + 1});
        case 1: return r.picki({-P - 1, -P, -1, 0, n - 1, n, n + P - 1, n + P}) + r.pickd({0.0, 1e-9, 0.5, 0.999999});
        case 2: return (double)r.range(-P, n + P - 1);
        case 3: return r.pickd({-1e6, 1e6, -P - 0.001, n + P - 0.001});
        case 4: return (double)(r.range(-1, (n + P) / 32) * 32);
        default: return r.real(-P, n + P);
        }
    };
    std::vector<Pose2d> used;
    for (int k = 0; k < 60; ++k) {
        double x = coord(g.w), y = coord(g.h), t = r.chance(0.2) ? r.range(-2, 1) * M_PI / 2 : r.real(-M_PI, M_PI);
        if (!used.empty() && r.chance(0.4)) {       // revisit
            Pose2d u = r.pick(used);
            x = std::floor(u.x) + r.unit(); y = std::floor(u.y) + r.unit(); t = u.theta;
        }
        bool f = r.chance(0.5);
        int steer = (int)r.range(-60, 60);
        int cx = (int)std::floor(x), cy = (int)std::floor(y);
        bool in = x >= -P && y >= -P && x < g.w + P && y < g.h + P;
        std::string at = str(" at ", x, ",", y, ",", t);
        ctx.check(mgr.contains(x, y) == in, "contains", "membership disagrees with the padded map" + at);
        ctx.check(mgr.contains(cx, cy) == in, "contains", "membership of the cell disagrees with the padded map" + at);
        const NodeT* n = 0;
        try { n = mgr.lookup(x, y, t, steer, f); } catch (OutsideMapException&) { n = 0; }
        ctx.check((n != 0) == in, "lookup-bounds", (in ? "lookup of a pose in the map raises the out-of-map error" : "lookup outside of the map returns a state") + at);
        bool hn = false, ht = false;
        try { hn = mgr.hasNode(cx, cy, (unsigned)r.range(0, 31), f); } catch (OutsideMapException&) { ht = true; }
        ctx.check(ht == !in, "has-node-bounds", "node query and map bounds disagree" + at);
        if (!in) { ctx.ev("outside"); continue; }
        ctx.check(hn, "has-node", "a state that was looked up is not known" + at);
        ctx.ev("lookups");
        double frac = (t + M_PI) / (2 * M_PI) * 31;
        if (std::fabs(frac - std::round(frac)) < 1e-6) continue;
        Key key(cx, cy, (int)std::floor(frac), f);
        if (std::fabs(t) < 3.14 && r.chance(0.5)) {
            int turns = (int)(r.chance(0.5) ? r.range(-3, 3) : r.range(-300, 300));
            ctx.check(mgr.lookup(x, y, t + turns * 2 * M_PI, steer, f) == n, "lookup-turns", str("the same heading after ", turns, " turns gives another state") + at);
        }
        if (!byKey.count(key)) {
            ctx.check(!byNode.count(n), "lookup-shared", "two cells, headings or directions share a state" + at);
            ctx.check(n->x == cx && n->y == cy, "lookup-pose", str("a new state at ", n->x, ",", n->y, at));
            ctx.check(n->prev == 0 && !std::isfinite(n->distance) && n->marked == 0, "lookup-fresh", "a new state is not blank");
            byKey[key] = n; byNode[n] = key;
            used.push_back(Pose2d(x, y, t));
        } else {
            ctx.check(byKey[key] == n, "lookup-stable", "one cell, heading and direction has two states" + at);
            ctx.ev("repeated lookups");
        }
        NodeT probe;
        NodeT::init(probe, x, y, t, f);
        probe.forward = f; probe.theta = t; probe.x = x; probe.y = y;
        ctx.check(mgr.lookup(probe) == n, "lookup-node", "lookup by node and by pose differ" + at);
        if (f) ctx.check(mgr.lookup(Pose2d(x, y, t)) == n, "lookup-node", "lookup by pose and by coordinates differ" + at);
    }
    if (r.chance(0.3)) { // same again after a new map
        GMap g2((int)r.range(1, 60), (int)r.range(1, 60));
        std::unique_ptr<SimpleGridMap2d> m2 = make_map(r, g2, 0.1);
        mgr.setMap(m2.get());
        for (int k = 0; k < 10; ++k) {
            double x = r.real(-P, g2.w + P), y = r.real(-P, g2.h + P), t = r.real(-3, 3);
            const NodeT* n = mgr.lookup(x, y, t, 0, true);
            ctx.check(n->x == std::floor(x) && n->y == std::floor(y) && n->marked == 0, "lookup-fresh", "a state of a new map is not blank");
        }
    }
}

// ---------------------------------------------------------------- C14
namespace {
template <class Mgr> void holonomic(Ctx& ctx, Mgr& mgr, const GMap& g, double res, int pad, std::pair<int, int>* same_goal = 0) {
    Rng& r = ctx.rng;
    // the padded map
    GMap p(g.w + 2 * pad, g.h + 2 * pad);
    for (int y = 0; y < g.h; ++y) for (int x = 0; x < g.w; ++x) if (g.at(x, y) == OCC) p.at(x + pad, y + pad) = OCC;
    std::pair<int, int> c = pick_cell(r, p, true);
    if (r.chance(0.2)) c = std::make_pair(r.chance(0.5) ? 0 : p.w - 1, (int)r.range(0, p.h - 1));
    if (r.chance(0.1)) c = std::make_pair((int)r.range(0, p.w - 1), r.chance(0.5) ? 0 : p.h - 1);
    if (same_goal) { if (same_goal->first >= 0) c = *same_goal; *same_goal = c; }
    if (p.at(c.first, c.second) != FREE) return;
    ctx.in << " res=" << res << " map " << g.dump() << " pad=" << pad << " goal " << c.first - pad << "," << c.second - pad;
    ctx.mix(g.hash()); ctx.mix(c.first); ctx.mix(c.second); ctx.mix(pad);
    ctx.interesting();
    typedef HeuristicNode<Node<Pose2d> > HN;
    Pose2d goal(c.first - pad, c.second - pad, 0);
    if (!same_goal) { goal.x += r.pickd({0.0, 0.5, 0.25}); goal.y += r.pickd({0.0, 0.5, 0.25}); }
    HeuristicHolonomicObstacles::setMap(&mgr, goal);
    std::vector<double> d = dijkstra(p, c.first, c.second, 8, [&](int x, int y) { return p.at(x, y) != OCC; });
    for (int y = 0; y < p.h; ++y) for (int x = 0; x < p.w; ++x) {
        if (p.at(x, y) == OCC) { ctx.ev("occupied cells"); continue; }
        HN n;
        n.x = x - pad + r.pickd({0.0, 0.5, 0.25}); n.y = y - pad + r.pickd({0.0, 0.5, 0.25});
        HeuristicHolonomicObstacles::compute(&n, &goal, res);
        double want = d[(size_t)y * p.w + x];
        if (!std::isfinite(want)) { ctx.check(n.h == 0, "unreachable", str("cell ", x - pad, ",", y - pad, " that cannot be reached has estimate ", n.h)); ctx.ev("unreachable cells"); continue; }
        ctx.check(std::fabs(n.h - want * res) < 1e-6 * (1 + want * res), "distance", str("cell ", x - pad, ",", y - pad, ": estimate ", n.h, ", distance ", want * res));
        ctx.ev("cells");
        if (r.chance(0.02)) {
            MH1::compute(&n, &goal, res);
            double l2 = res * std::hypot(n.x - goal.x, n.y - goal.y);
            ctx.check(std::fabs(n.h - std::max(l2, want * res)) < 1e-6 * (1 + n.h), "maximum", str("combined estimate ", n.h, " of ", l2, " and ", want * res));
        }
    }
}
}
WORKLOAD("C14", heuristic_grid, 600, 12000, 3, "obstacle heuristic on the 2D state space of random maps, every cell compared with Dijkstra") {
    Rng& r = ctx.rng;
    std::pair<int, int> wh = gen_size(r, ctx.idx % 60 == 7 ? 200 : 40);
    GMap g = ctx.idx % 150 == 9 ? wide_map(r) : gen_map(r, wh.first, wh.second);
    double res = r.pickd({0.05, 0.1, 1.0, 2.0});
    std::unique_ptr<SimpleGridMap2d> m = make_map(r, g, res);
    GridMapManager<Node<Pose2d> > mgr;
    mgr.setMap(m.get());
    holonomic(ctx, mgr, g, res, 0);
}
WORKLOAD("C14", heuristic_history, 300, 6000, 2, "several estimates on one state space, with the same and other goals, after the map's contents changed, was given again or replaced by one of the same size") {
    Rng& r = ctx.rng;
    std::pair<int, int> wh = gen_size(r, 24);
    GMap g = gen_map(r, wh.first, wh.second);
    double res = r.pickd({0.05, 0.1, 1.0, 2.0});
    std::unique_ptr<SimpleGridMap2d> m = make_map(r, g, res);
    bool padded = r.chance(0.15);
    GridMapManager<Node<Pose2d> > mgr;
    DynamicDirectionalStateSpaceManager<DirectionalNode<SteeringNode<Node<Pose2d> > > > mgp;
    auto give = [&] { if (padded) mgp.setMap(m.get()); else mgr.setMap(m.get()); };
    give();
    std::pair<int, int> goal(-1, -1);
    for (int k = 0; k < 4; ++k) {
        if (padded) holonomic(ctx, mgp, g, res, 32, &goal); else holonomic(ctx, mgr, g, res, 0, &goal);
        if (r.chance(0.3)) goal.first = -1;
        switch (r.range(0, 3)) {
        case 0: break;
        case 1: g = gen_map(r, g.w, g.h); m = make_map(r, g, res); give(); break;
        default:                                   // other contents in the same map
            for (int i = (int)r.range(1, g.w * g.h); i > 0; --i) {
                int x = (int)r.range(0, g.w - 1), y = (int)r.range(0, g.h - 1);
                g.at(x, y) = r.chance(0.3) ? OCC : FREE;
                m->setValue(x, y, g.at(x, y) == OCC ? 255 : 0);
            }
            if (r.chance(0.3)) give();
        }
    }
}
WORKLOAD("C14", heuristic_padded, 60, 1500, 1, "obstacle heuristic on the padded state space of random maps, every cell compared with Dijkstra") {
    Rng& r = ctx.rng;
    std::pair<int, int> wh = gen_size(r, 40);
    GMap g = gen_map(r, wh.first, wh.second);
    double res = r.pickd({0.05, 0.1, 1.0, 2.0});
    std::unique_ptr<SimpleGridMap2d> m = make_map(r, g, res);
    DynamicDirectionalStateSpaceManager<DirectionalNode<SteeringNode<Node<Pose2d> > > > mgr;
    mgr.setMap(m.get());
    holonomic(ctx, mgr, g, res, 32);
}
