// C27-C31: geometric primitives, intersections, tangents, point algebra, rounding.
#include <Eigen/Core>
#include <Eigen/StdVector>
#include <cslibs_path_planning/geometry/shape.h>
#include <cslibs_path_planning/geometry/line.h>
#include <cslibs_path_planning/geometry/circle.h>
#include <cslibs_path_planning/geometry/intersector.h>
#include <cslibs_path_planning/geometry/tangentor.h>
#include <cslibs_path_planning/common/Point2d.h>
#include <cslibs_path_planning/common/Pose2d.h>
#include <cslibs_path_planning/common/TmpMath.hpp>
#include "common.hpp"
#include <algorithm>
#include <climits>

using namespace vf;
using namespace path_geom;
typedef Eigen::Vector2d V;

static double pos2pi(double a) { a = std::fmod(a, 2 * M_PI); if (a < 0) a += 2 * M_PI; return a; }
static std::string pt(const V& v) { return str("(", v.x(), ",", v.y(), ")"); }
static double coord(Rng& r) { return r.chance(0.2) ? (double)r.range(-5, 5) : r.chance(0.03) ? r.real(-400, 400) : r.real(-20, 20); }
static V rv(Rng& r) { double a = coord(r), b = coord(r); return V(a, b); }
static double cross(const V& a, const V& b) { return a.x() * b.y() - a.y() * b.x(); }

// reference arc: starts at angle s, sweeps `arc` >= 0 in direction d
struct RArc {
    V c; double r, s, arc; int d;
    V at(double sweep) const { double a = s + d * sweep; return c + r * V(std::cos(a), std::sin(a)); }
    double heading(double sweep) const { return s + d * sweep + d * M_PI / 2; }
    // sweep (0..2pi) at which the ray from the centre through p crosses the circle
    double sweepOf(const V& p) const { double a = std::atan2(p.y() - c.y(), p.x() - c.x()); return pos2pi(d * (a - s)); }
    // clear distance (in angle) of p's ray to both ends of the arc
    double endMargin(const V& p) const { double w = sweepOf(p); double m = std::min(std::min(w, 2 * M_PI - w), std::fabs(w - arc)); return m; }
    bool covers(const V& p) const { return arc >= 2 * M_PI - 1e-12 || sweepOf(p) <= arc; }
    double dist(const V& p) const {
        if ((p - c).norm() > 1e-9 && covers(p)) return std::fabs((p - c).norm() - r);
        return std::min((p - at(0)).norm(), (p - at(arc)).norm());
    }
    std::string dump() const { return str("arc c=", pt(c), " r=", r, " start=", s, " sweep=", arc, " dir=", d); }
};

static double gen_angle(Rng& r) {
    switch (r.range(0, 4)) {
    case 0: return r.range(-4, 8) * M_PI / 4;
    case 1: return r.real(-0.05, 0.05) + r.range(0, 4) * M_PI / 2;
    default: return r.real(-2 * M_PI, 4 * M_PI);
    }
}

// A library arc together with its reference, built in one of the documented ways.
static Circle gen_arc(Ctx& ctx, RArc& R, bool allow_full = true) {
    Rng& r = ctx.rng;
    R.c = rv(r); R.r = r.chance(0.2) ? (double)r.range(1, 5) : r.chance(0.03) ? r.real(12, 300) : r.real(0.05, 12);
    R.d = r.chance(0.5) ? ARC_LEFT : ARC_RIGHT;
    double a = gen_angle(r);
    double sw = r.chance(0.15) ? r.range(1, 7) * M_PI / 4 : r.real(0.02, 2 * M_PI - 0.02);
    int how = (int)r.range(allow_full ? 0 : 1, 6);
    ctx.mix(how); ctx.mixd(a); ctx.mixd(sw); ctx.mixd(R.r);
    ctx.in << "how=" << how << " ";
    switch (how) {
    case 0: {
        Circle c(R.c, r.chance(0.2) ? -R.r : R.r, R.d * (int)r.range(1, 3));
        R.s = R.d == ARC_LEFT ? 0 : 2 * M_PI; R.arc = 2 * M_PI;
        ctx.ev("full circle");
        return c;
    }
    case 1: {
        PathPose p(R.c.x(), R.c.y(), a);
        R.s = a - R.d * M_PI / 2; R.arc = sw;
        V start = R.c;                        // the pose is the start point
        R.c = start - R.r * V(std::cos(R.s), std::sin(R.s));
        ctx.ev("arc from pose");
        Circle c = Circle::createArcFrom(p, R.r, sw, R.d);
        ctx.check((c.startPoint() - start).norm() < 1e-7, "arc-from-start", str("arc from pose does not start there: ", pt(c.startPoint())));
        return c;
    }
    case 2: {
        PathPose p(R.c.x(), R.c.y(), a);
        double e = a - R.d * M_PI / 2; R.arc = sw; R.s = e - R.d * sw;
        V end = R.c;
        R.c = end - R.r * V(std::cos(e), std::sin(e));
        ctx.ev("arc to pose");
        Circle c = Circle::createArcTo(p, R.r, sw, R.d);
        ctx.check((c.endPoint() - end).norm() < 1e-7, "arc-to-end", str("arc to pose does not end there: ", pt(c.endPoint())));
        return c;
    }
    case 3: {
        Circle c(R.c, R.r, r.chance(0.5) ? 1 : -1);
        c.setArc(a, sw, R.d);
        R.s = a; R.arc = sw;
        return c;
    }
    case 4: {                                 // start, then end angle
        Circle c(R.c, R.r, R.d);
        double e = a + R.d * sw;
        c.setStartAngle(a);
        if (r.chance(0.5)) c.setEndAngle(r.chance(0.3) ? e + 2 * M_PI * r.range(-4, 4) : e); else ctx.check(c.selectEndPoint(R.c + R.r * V(std::cos(e), std::sin(e))), "select-end", "point of the circle refused as end point");
        R.s = a; R.arc = sw;
        ctx.ev("arc by start and end angle");
        return c;
    }
    case 5: {                                 // arc, then moved start: the end stays
        Circle c(R.c, R.r, R.d);
        double sw0 = r.real(0.02, 2 * M_PI - 0.02), e = a + R.d * sw;
        c.setArc(e - R.d * sw0, sw0, R.d);
        if (r.chance(0.5)) c.setStartAngle(r.chance(0.3) ? a + 2 * M_PI * r.range(-4, 4) : a); else ctx.check(c.selectStartPoint(R.c + R.r * V(std::cos(a), std::sin(a))), "select-start", "point of the circle refused as start point");
        R.s = a; R.arc = sw;
        ctx.ev("arc by moved start");
        return c;
    }
    default: {                                // start and arc angle, negative or above 2pi
        Circle c(R.c, R.r, R.d);
        c.setStartAngle(a);
        c.setArcAngle(sw + 2 * M_PI * (r.chance(0.7) ? r.range(-1, 1) : r.range(-4, 4)));
        R.s = a; R.arc = sw;
        return c;
    }
    }
}

// poses must be samples of positions at(u) for increasing u in [0,len], spaced evenly, heading h(u)
template <class At, class Heading>
static void check_samples(Ctx& ctx, const PathPoseVec& P, double len, double res, bool with_start, bool ends_at_end, At at, Heading h, const char* what) {
    std::string w = what;
    long n = (long)P.size();
    long lo = (long)std::floor(len / res - 1e-6), hi = (long)std::floor(len / res + 1e-6);
    if (lo < 0) lo = 0;
    long segs = n - (with_start ? 1 : 0);
    ctx.check(segs >= lo && segs <= hi, w + ":count", str(what, ": ", n, " poses for length ", len, " at ", res, with_start ? " with start" : " without start"));
    if (segs == 0 && !with_start) return;
    double step = ends_at_end ? (segs ? len / segs : 0) : res;
    for (long i = 0; i < n; ++i) {
        double u = (with_start ? i : i + 1) * step;
        ctx.check((P[i].pos_ - at(u)).norm() < 1e-6, w + ":position", str(what, ": pose ", i, " of ", n, " is at ", pt(P[i].pos_), ", expected ", pt(at(u)), " (length ", len, " resolution ", res, ")"));
        ctx.check(angdist(P[i].theta_, h(u)) < 1e-6, w + ":heading", str(what, ": pose ", i, " of ", n, " has heading ", P[i].theta_, ", tangent is ", wrap(h(u))));
    }
    ctx.ev("sampled poses", n);
}

WORKLOAD("C27", arcs, 40000, 3000000, 60, "random arc (every construction, both directions) with its lengths, ends, distances and samples compared with a reference arc; non-trivial: every arc") {
    Rng& r = ctx.rng;
    RArc R;
    Circle c = gen_arc(ctx, R);
    ctx.in << R.dump();
    ctx.interesting();
    const double E = 1e-7;
    ctx.check((c.center() - R.c).norm() < E && std::fabs(c.radius() - R.r) < E && c.direction() == R.d, "arc:circle", str("centre/radius/direction ", pt(c.center()), " ", c.radius(), " ", c.direction()));
    ctx.check(std::fabs(std::fabs(c.getArcAngle()) - R.arc) < E, "arc:angle", str("arc angle ", c.getArcAngle(), " expected ", R.arc));
    ctx.check(std::fabs(std::fabs(c.getArcLength()) - R.arc * R.r) < 1e-6, "arc:length", str("arc length ", c.getArcLength(), " expected ", R.arc * R.r));
    ctx.check(angdist(c.startAngle(), R.s) < E, "arc:start-angle", str("start angle ", c.startAngle(), " expected ", R.s));
    ctx.check(angdist(c.endAngle(), R.s + R.d * R.arc) < E, "arc:end-angle", str("end angle ", c.endAngle(), " expected ", R.s + R.d * R.arc));
    ctx.check((c.startPoint() - R.at(0)).norm() < 1e-6, "arc:start", str("start point ", pt(c.startPoint()), " expected ", pt(R.at(0))));
    ctx.check((c.endPoint() - R.at(R.arc)).norm() < 1e-6, "arc:end", str("end point ", pt(c.endPoint()), " expected ", pt(R.at(R.arc))));
    const Circle& cc = c;
    for (int i = 0; i < 6; ++i) {
        V p;
        if (i < 3) p = R.c + R.r * r.real(0.1, 2.5) * V(std::cos(i + r.real(0, 6)), std::sin(i + r.real(0, 6)));
        else { double a = r.real(0, 2 * M_PI); p = R.c + R.r * V(std::cos(a), std::sin(a)); }
        double m = R.endMargin(p);
        if (R.arc < 2 * M_PI - 1e-9 && m < 1e-6) continue;
        double off = std::fabs((p - R.c).norm() - R.r);
        if (off < 1e-9 || off > 1e-4) {
            bool on = off < 1e-9 && R.covers(p);
            ctx.check(cc.isPointOnArc(p) == on, "arc:on", str("point ", pt(p), on ? " on the arc refused" : " off the arc accepted"));
            ctx.ev(on ? "point on arc" : "point off arc");
        }
        if ((p - R.c).norm() < 1e-3) continue;
        double d = cc.distanceTo(p);
        ctx.check(std::fabs(d - R.dist(p)) < 1e-6, "arc:distance", str("distance of ", pt(p), " is ", d, " expected ", R.dist(p)));
        V q = cc.nearestPointTo(p);
        ctx.check(std::fabs((q - p).norm() - R.dist(p)) < 1e-6 && R.dist(q) < 1e-6, "arc:nearest", str("nearest point to ", pt(p), " is ", pt(q)));
    }
    V off = R.c + (R.r + (r.chance(0.5) ? 1 : -1) * R.r * r.real(0.01, 0.9)) * V(std::cos(1.0), std::sin(1.0));
    if (std::fabs((off - R.c).norm() - R.r) > 1e-3) {
        Circle k = c;
        ctx.check(!k.selectStartPoint(off) && !k.selectEndPoint(off) && (k.startPoint() - c.startPoint()).norm() == 0 && (k.endPoint() - c.endPoint()).norm() == 0,
                  "arc:select-off", "point off the circle accepted as end of the arc");
    }
    double len = R.arc * R.r, res = r.chance(0.1) ? len * r.real(1.01, 3) : std::max(len / (ctx.idx % 400 == 9 ? 3000 : 60), ctx.idx % 400 == 9 ? 1e-4 : r.real(0.01, 1.5));
    for (int k = 0; k < 4; ++k) {
        int dir = k & 1 ? BACKWARD : FORWARD;
        bool ws = k & 2;
        PathPoseVec P((size_t)r.range(0, 3));
        Shape& s = c;
        if (r.chance(0.5)) s.toPoses(res, P, dir, ws); else c.toPoses(res, P, dir, ws);
        check_samples(ctx, P, len, res, ws, true,
                      [&](double u) { return R.at((dir == FORWARD ? u : len - u) / R.r); },
                      [&](double u) { return R.heading((dir == FORWARD ? u : len - u) / R.r); }, dir == FORWARD ? "arc poses forward" : "arc poses backward");
    }
    std::vector<V> pts;
    c.toPoints(res, pts);
    long lo = (long)std::floor(len / res - 1e-6), hi = (long)std::floor(len / res + 1e-6);
    ctx.check((long)pts.size() >= lo && (long)pts.size() <= hi + 1, "arc:points-count", str(pts.size(), " points for length ", len, " at ", res));
    double prev = -1e-6;
    for (size_t i = 0; i < pts.size(); ++i) {
        ctx.check(std::fabs((pts[i] - R.c).norm() - R.r) < 1e-6, "arc:points-off", str("point ", i, " ", pt(pts[i]), " is not on the arc"));
        double w = i == 0 ? 0 : R.sweepOf(pts[i]);
        if (i + 1 == pts.size() && R.arc > 2 * M_PI - 1e-6 && w < 1e-6) w = 2 * M_PI;
        if (i == 0) ctx.check((pts[0] - R.at(0)).norm() < 1e-6, "arc:points-start", str("points start at ", pt(pts[0])));
        else ctx.check(w > prev && w <= R.arc + 1e-6 && (w - prev) * R.r < 2 * res + 1e-6, "arc:points-order", str("point ", i, " at sweep ", w, " after ", prev, " of ", R.arc));
        prev = w;
    }
    if (!pts.empty()) ctx.check((R.arc - prev) * R.r < 2 * res + 1e-6, "arc:points-rest", str("points stop at sweep ", prev, " of ", R.arc));
    PathPoseVec z(2);
    c.toPoses(0.0, z, FORWARD, true);
    ctx.check(z.empty(), "arc:zero-res", "poses for resolution zero");
    RArc R2; Circle c2 = gen_arc(ctx, R2);
    if (std::fabs(R.arc - R2.arc) > 1e-6) {
        ctx.check(Circle::compareArcAngle(c, c2) == (R.arc < R2.arc), "arc:compare", "arc comparison");
        ctx.check(Circle::compareArcAnglePtr(std::make_shared<Circle>(c), std::make_shared<Circle>(c2)) == (R.arc < R2.arc), "arc:compare", "arc comparison by pointer");
    }
    std::shared_ptr<Shape> sp = make_aligned<Circle>(c), cp = Shape::deepCopy(sp);
    ctx.check(cp && cp != sp && (cp->startPoint() - sp->startPoint()).norm() == 0 && (cp->endPoint() - sp->endPoint()).norm() == 0 &&
              std::dynamic_pointer_cast<Circle>(cp) && std::dynamic_pointer_cast<Circle>(cp)->direction() == R.d, "arc:copy", "copy of an arc differs");
    sp->selectStartPoint(R.at(R.arc / 3));
    ctx.check((cp->startPoint() - c.startPoint()).norm() == 0, "arc:copy-alias", "copy of an arc shares its state");
}

static double segdist(const V& a, const V& b, const V& p) {
    V d = b - a; double t = (p - a).dot(d) / d.squaredNorm();
    t = std::max(0.0, std::min(1.0, t));
    return (a + t * d - p).norm();
}

WORKLOAD("C27", lines, 40000, 3000000, 60, "random segment (both constructions, parallels) with its distances, feet and samples compared with reference formulas; non-trivial: every segment of positive length") {
    Rng& r = ctx.rng;
    V a = rv(r), b = rv(r);
    double th = gen_angle(r), L = r.chance(0.03) ? r.real(20, 600) : r.real(0.05, 20);
    int how = (int)r.range(0, 3);
    ctx.mix(how); ctx.mixd(a.x()); ctx.mixd(th);
    if (how == 0) { if ((a - b).norm() < 0.05) return; }
    else if (how == 1 || how == 3) { V u(std::cos(th), std::sin(th)); b = a + L * u; }
    else { V u(std::cos(th), std::sin(th)); b = a; a = b - L * u; }
    ctx.in << "how=" << how << " " << pt(a) << " " << pt(b);
    Line l = how == 0 ? Line(a, b)
           : how == 2 ? Line(PathPose(b.x(), b.y(), th), r.chance(0.2) ? -L : L, BACKWARD * (int)r.range(1, 2))
                      : Line(PathPose(a.x(), a.y(), th), r.chance(0.2) ? -L : L, FORWARD * (int)r.range(1, 2));
    if (how == 3) {                            // end points moved along the line
        V u = (b - a).normalized();
        V a2 = a + u * r.real(-3, 3), b2 = a2 + u * r.real(0.1, 5), off = a + V(-u.y(), u.x()) * r.real(0.01, 3) * (r.chance(0.5) ? 1 : -1);
        ctx.check(!l.selectStartPoint(off) && !l.selectEndPoint(off), "line:select-off", "point off the line accepted as end point");
        bool o = r.chance(0.5);
        bool s1 = o ? l.selectStartPoint(a2) : l.selectEndPoint(b2), s2;
        // the second selection is only made where the interim line keeps a length
        if ((l.endPoint() - l.startPoint()).norm() < 0.01) return;
        s2 = o ? l.selectEndPoint(b2) : l.selectStartPoint(a2);
        ctx.check(s1 && s2, "line:select-on", "point on the line refused as end point");
        a = a2; b = b2;
        ctx.ev("moved end points");
    }
    ctx.interesting();
    ctx.check((l.startPoint() - a).norm() < 1e-6 && (l.endPoint() - b).norm() < 1e-6, "line:ends", str("ends ", pt(l.startPoint()), " ", pt(l.endPoint())));
    a = l.startPoint(); b = l.endPoint();
    double len = (b - a).norm();
    V u = (b - a) / len, nrm(-u.y(), u.x());
    double dist = r.real(-8, 8);
    Line par = Line::parallel(l, dist);
    ctx.check((par.startPoint() - (a + dist * nrm)).norm() < 1e-6 && (par.endPoint() - (b + dist * nrm)).norm() < 1e-6, "line:parallel", str("parallel at ", dist, ": ", pt(par.startPoint()), " ", pt(par.endPoint())));
    for (int i = 0; i < 6; ++i) {
        V p = i < 3 ? rv(r) : V(a + u * r.real(-1, 2) * len + nrm * r.real(-2, 2));
        double sd = (p - a).dot(nrm), along = (p - a).dot(u);
        ctx.check(std::fabs(l.pointSignedDistance(p) - sd) < 1e-6, "line:signed", str("signed distance of ", pt(p), " is ", l.pointSignedDistance(p), " expected ", sd));
        if (std::fabs(sd * len) > 2e-5) ctx.check(l.pointRelativePosition(p) == (sd > 0 ? 1 : -1), "line:side", str("side of ", pt(p)));
        V on = a + u * along;
        ctx.check(l.pointRelativePosition(on) == 0, "line:side-on", str("side of ", pt(on), " on the line"));
        ctx.check((l.footPoint(p) - on).norm() < 1e-6, "line:foot", str("foot of ", pt(p), " is ", pt(l.footPoint(p))));
        ctx.check((l.projectPoint(p) - on).norm() < 1e-6, "line:project", str("projection of ", pt(p), " is ", pt(l.projectPoint(p))));
        double d = segdist(a, b, p);
        const Shape& s = l;
        ctx.check(std::fabs(s.distanceTo(p) - d) < 2e-5, "line:distance", str("distance of ", pt(p), " is ", s.distanceTo(p), " expected ", d));
        V q = s.nearestPointTo(p);
        ctx.check(std::fabs((q - p).norm() - d) < 2e-5 && segdist(a, b, q) < 2e-5, "line:nearest", str("nearest point to ", pt(p), " is ", pt(q)));
        double excess = (p - a).norm() + (p - b).norm() - len;
        if (excess > 1e-4) ctx.check(!l.isPointOnSegment(p), "line:on", str("point ", pt(p), " off the segment accepted"));
        if (along > 0 && along < len) ctx.check(l.isPointOnSegment(on), "line:on", str("point ", pt(on), " of the segment refused"));
        else if (along < -1e-3 || along > len + 1e-3) ctx.check(!l.isPointOnSegment(on), "line:on", str("point ", pt(on), " beyond the segment accepted"));
        ctx.ev(along >= 0 && along <= len ? "foot on segment" : "foot beyond segment");
    }
    double res = r.chance(0.1) ? len * r.real(1.01, 3) : std::max(len / 60, r.real(0.01, 1.5));
    for (int k = 0; k < 4; ++k) {
        int dir = k & 1 ? BACKWARD : FORWARD;
        bool ws = k & 2;
        PathPoseVec P((size_t)r.range(0, 3));
        Shape& s = l;
        if (r.chance(0.5)) s.toPoses(res, P, dir, ws); else l.toPoses(res, P, dir, ws);
        check_samples(ctx, P, len, res, ws, false,
                      [&](double x) { return dir == FORWARD ? V(a + u * x) : V(b - u * x); },
                      [&](double) { return std::atan2(u.y(), u.x()); }, dir == FORWARD ? "line poses forward" : "line poses backward");
    }
    std::vector<V> pts;
    l.toPoints(res, pts);
    ctx.check(!pts.empty() && (pts.back() - b).norm() < 1e-6, "line:points-end", "points do not end at the end point");
    if (pts.size() > 1) ctx.check((pts[0] - a).norm() < 1e-6, "line:points-start", "points do not start at the start point");
    ctx.check(pts.size() >= len / res - 1e-6 && pts.size() <= len / res + 2, "line:points-count", str(pts.size(), " points for length ", len, " at ", res));
    for (size_t i = 0; i + 1 < pts.size(); ++i) {
        ctx.check(segdist(a, b, pts[i]) < 1e-6, "line:points-off", str("point ", i, " ", pt(pts[i]), " is not on the segment"));
        double g = (pts[i + 1] - pts[i]).dot(u);
        ctx.check(g > 0 && g < 2 * res + 1e-6 , "line:points-order", str("points ", i, " and ", i + 1, " are ", g, " apart at ", res));
    }
    PathPoseVec z(2);
    l.toPoses(0.0, z, FORWARD, true);
    ctx.check(z.empty(), "line:zero-res", "poses for resolution zero");
    std::shared_ptr<Shape> sp = make_aligned<Line>(l), cp = Shape::deepCopy(sp);
    ctx.check(cp && cp != sp && (cp->startPoint() - a).norm() == 0 && (cp->endPoint() - b).norm() == 0 && std::dynamic_pointer_cast<Line>(cp), "line:copy", "copy of a line differs");
}

// ------------------------------------------------------------------ intersections
static void same_points(Ctx& ctx, const std::vector<V>& got, const std::vector<V>& want, const std::string& what, double tol = 1e-5) {
    std::string g;
    for (auto& p : got) g += pt(p) + " ";
    std::string w;
    for (auto& p : want) w += pt(p) + " ";
    ctx.check(got.size() == want.size(), what + ":count", what + ": got " + g + "expected " + w);
    std::vector<bool> used(want.size(), false);
    for (auto& p : got) {
        bool ok = false;
        for (size_t i = 0; i < want.size() && !ok; ++i)
            if (!used[i] && (p - want[i]).norm() < tol) { used[i] = true; ok = true; }
        ctx.check(ok, what + ":point", what + ": got " + g + "expected " + w);
    }
    ctx.ev(got.size() == 0 ? "no common point" : got.size() == 1 ? "one common point" : "two common points");
}

WORKLOAD("C28", line_line, 150000, 3000000, 40, "random segment pair; reference orientation test; non-trivial: pairs away from touching end points") {
    Rng& r = ctx.rng;
    V a = rv(r), b = rv(r), c, d;
    if (r.chance(0.5)) { c = rv(r); d = rv(r); }
    else { V m = a + (b - a) * r.real(-0.3, 1.3); double t = r.real(0, 6.28), k = r.real(-0.5, 1.5); V u(std::cos(t), std::sin(t)); c = m - u * k * 5; d = m + u * (1 - k) * 5; }
    ctx.in << pt(a) << pt(b) << pt(c) << pt(d);
    ctx.mixd(a.x()); ctx.mixd(c.x()); ctx.mixd(d.y());
    if ((a - b).norm() < 0.1 || (c - d).norm() < 0.1) return;
    V u = (b - a).normalized(), v = (d - c).normalized();
    if (std::fabs(cross(u, v)) < 1e-3) return;
    double o1 = cross(u, c - a), o2 = cross(u, d - a), o3 = cross(v, a - c), o4 = cross(v, b - c);
    for (double o : {o1, o2, o3, o4}) if (std::fabs(o) < 1e-3) return;
    ctx.interesting();
    bool want = (o1 > 0) != (o2 > 0) && (o3 > 0) != (o4 > 0);
    V p(77, 77);
    bool got = Intersector::intersect(Line(a, b), Line(c, d), p);
    ctx.check(got == want, "line-line:exists", got ? "intersection reported for disjoint segments" : "intersection of crossing segments missed");
    ctx.ev(got ? "segments cross" : "segments apart");
    if (got) ctx.check(segdist(a, b, p) < 1e-5 && segdist(c, d, p) < 1e-5, "line-line:point", str("reported point ", pt(p), " is not on both segments"));
}

WORKLOAD("C28", line_circle, 150000, 3000000, 40, "random segment and circle; reference quadratic; non-trivial: pairs away from tangency and segment ends on the circle") {
    Rng& r = ctx.rng;
    RArc R; Circle c = gen_arc(ctx, R);
    V a, b;
    if (r.chance(0.3)) { a = rv(r); b = rv(r); }
    else { a = R.c + R.r * r.real(0, 3) * V(std::cos(r.real(0, 6.28)), std::sin(r.real(0, 6.28))); b = R.c + R.r * r.real(0, 3) * V(std::cos(r.real(0, 6.28)), std::sin(r.real(0, 6.28))); }
    ctx.in << R.dump() << " " << pt(a) << pt(b);
    double len = (b - a).norm();
    if (len < 0.05) return;
    V u = (b - a) / len;
    double h = std::fabs(cross(u, R.c - a)), t0 = (R.c - a).dot(u);
    if (std::fabs(h - R.r) < 1e-2 * R.r) return;
    std::vector<V> want;
    if (h < R.r) {
        double k = std::sqrt(R.r * R.r - h * h);
        for (double t : {t0 - k, t0 + k}) {
            if (std::fabs(t) < 1e-5 || std::fabs(t - len) < 1e-5) return;
            if (t > 0 && t < len) want.push_back(a + u * t);
        }
    }
    ctx.interesting();
    std::vector<V> got((size_t)r.range(0, 2), V(9, 9));
    if (r.chance(0.5)) Intersector::intersect(Line(a, b), c, got); else c.intersect(Line(a, b), got);
    same_points(ctx, got, want, "line-circle");
}

// reference: common points of two full circles in general position
static bool circle_points(const V& c1, double r1, const V& c2, double r2, std::vector<V>& want, double margin) {
    double d = (c2 - c1).norm();
    if (std::fabs(d - r1 - r2) < margin || std::fabs(d - std::fabs(r1 - r2)) < margin) return false;
    if (d > r1 + r2 || d < std::fabs(r1 - r2)) return true;
    double co = (r1 * r1 + d * d - r2 * r2) / (2 * r1 * d);
    co = std::max(-1.0, std::min(1.0, co));
    double base = std::atan2(c2.y() - c1.y(), c2.x() - c1.x()), da = std::acos(co);
    for (double s : {-1.0, 1.0}) want.push_back(c1 + r1 * V(std::cos(base + s * da), std::sin(base + s * da)));
    return true;
}

WORKLOAD("C28", circles, 150000, 3000000, 40, "random pair of arcs: full-circle and arc intersections against reference; result vectors pre-filled; non-trivial: pairs away from tangency and arc ends") {
    Rng& r = ctx.rng;
    RArc R1, R2; Circle c1 = gen_arc(ctx, R1);
    Circle c2 = gen_arc(ctx, R2);
    int mode = (int)r.range(0, 5);
    if (mode >= 2) {                           // nearby, so that they often cross
        double t = r.real(0, 6.28), d = r.real(0.0, 1.1) * (R1.r + R2.r);
        if (mode == 5) d = 0;
        R2.c = R1.c + d * V(std::cos(t), std::sin(t));
        Circle k(R2.c, R2.r, R2.d);
        k.setArc(R2.s, R2.arc, R2.d);
        c2 = k;
    }
    ctx.in << R1.dump() << " " << R2.dump();
    std::vector<V> want;
    if (!circle_points(R1.c, R1.r, R2.c, R2.r, want, 1e-3 * std::max(R1.r, R2.r))) return;
    ctx.interesting();
    std::vector<V> got((size_t)r.range(0, 2), V(9, 9));
    Intersector::intersect(c1, c2, got);
    same_points(ctx, got, want, "circle-circle");
    std::vector<V> arcs;
    for (auto& p : want) {
        if ((R1.arc < 6.28318 && R1.endMargin(p) < 1e-6) || (R2.arc < 6.28318 && R2.endMargin(p) < 1e-6)) return;
        if (R1.covers(p) && R2.covers(p)) arcs.push_back(p);
    }
    got.assign((size_t)r.range(0, 2), V(9, 9));
    if (r.chance(0.5)) Intersector::intersectArcs(c1, c2, got); else c1.intersect(c2, got);
    same_points(ctx, got, arcs, "arc-arc");
}

WORKLOAD("C28", touching, 60000, 1000000, 30, "two circles touching from outside or inside up to a billionth: exactly one common point, the touching point; non-trivial: all") {
    Rng& r = ctx.rng;
    V c1 = rv(r);
    double r1 = r.real(0.3, 8), r2 = r.real(0.3, 8), t = r.real(0, 6.28);
    if (std::fabs(r1 - r2) < 0.05) r2 += 0.2;
    bool inner = r.chance(0.5);
    double d = (inner ? std::fabs(r1 - r2) : r1 + r2) + r.pickd({0, 1e-13, -1e-13, 1e-9, -1e-9, 1e-7, -1e-7});
    V u(std::cos(t), std::sin(t)), c2 = c1 + d * u;
    ctx.in << "c1=" << pt(c1) << " r1=" << r1 << " c2=" << pt(c2) << " r2=" << r2 << (inner ? " inner" : " outer");
    ctx.mixd(r1); ctx.mixd(r2); ctx.mixd(d);
    ctx.interesting();
    V touch = c1 + (inner && r1 < r2 ? -1 : 1) * r1 * u;
    std::vector<V> got;
    Intersector::intersect(Circle(c1, r1), Circle(c2, r2), got);
    same_points(ctx, got, std::vector<V>(1, touch), inner ? "touch-inner" : "touch-outer", 1e-4);
}

WORKLOAD("C28", touching_line, 60000, 1000000, 30, "segment tangent to a circle: exactly representable cases (directions 1:0, 0:1, 3:4) have exactly the touching point if the segment reaches it; in general position every reported point is next to it") {
    Rng& r = ctx.rng;
    bool exact = r.chance(0.6);
    V c, u, a, b, touch; double R;
    double side = r.chance(0.5) ? 1 : -1, t0, t1;
    if (exact) {
        static const double D[6][2] = {{1, 0}, {0, 1}, {3, 4}, {4, -3}, {-1, 0}, {-3, 4}};
        const double* d = D[r.range(0, 5)];
        double k = std::hypot(d[0], d[1]), q = r.pickd({0.25, 0.5, 1});
        c = V(q * r.range(-20, 20), q * r.range(-20, 20));
        double m = (double)r.range(1, 8);           // radius k * m / 2 with an exact offset
        V n(-d[1], d[0]);
        R = k * m * 0.5; touch = c + side * m * 0.5 * n;
        t0 = (double)r.range(-6, 6); t1 = (double)r.range(-6, 6);
        if (t0 == t1) return;
        a = touch + t0 * V(d[0], d[1]); b = touch + t1 * V(d[0], d[1]);
    } else {
        double w = r.real(0, 6.28);
        c = rv(r); R = r.real(0.3, 8); u = V(std::cos(w), std::sin(w));
        touch = c + side * R * V(-u.y(), u.x());
        t0 = r.real(-5, 5); t1 = r.real(-5, 5);
        if (std::fabs(t0 - t1) < 0.1) return;
        a = touch + t0 * u; b = touch + t1 * u;
    }
    ctx.in << "circle " << pt(c) << " " << R << " segment " << pt(a) << pt(b);
    ctx.mixd(R); ctx.mixd(t0); ctx.mixd(t1); ctx.mixd(c.x()); ctx.mixd(c.y());
    ctx.interesting();
    std::vector<V> got((size_t)r.range(0, 2), V(9, 9));
    Circle k(c, R);
    if (r.chance(0.5)) Intersector::intersect(Line(a, b), k, got); else k.intersect(Line(a, b), got);
    bool reach = (t0 <= 0 && t1 >= 0) || (t0 >= 0 && t1 <= 0);
    if (exact) {
        std::vector<V> want;
        if (reach) want.push_back(touch);
        same_points(ctx, got, want, reach ? "tangent-line" : "tangent-line-apart", 1e-6);
        ctx.ev(reach ? "tangents touched" : "tangents apart");
    } else {
        double lo = std::min(std::fabs(t0), std::fabs(t1));
        ctx.check(got.size() <= 2, "tangent-line-count", str(got.size(), " points on a tangent"));
        for (auto& p : got) {
            ctx.check((p - touch).norm() < 1e-4 * (1 + R), "tangent-line-point", str("reported point ", pt(p), " is not next to the touching point ", pt(touch)));
            ctx.check(segdist(a, b, p) < 1e-5, "tangent-line-segment", str("reported point ", pt(p), " is not on the segment"));
        }
        if (!reach && lo > 1e-3 * (1 + R)) ctx.check(got.empty(), "tangent-line-apart", "a touching point although the segment does not reach it");
    }
}

// ------------------------------------------------------------------ tangents
struct Piece { V s, e; double hs, he; };       // start, end, headings there
static Piece piece_of(const Circle& c) {
    Piece p; p.s = c.startPoint(); p.e = c.endPoint();
    p.hs = c.startAngle() + c.direction() * M_PI / 2; p.he = c.endAngle() + c.direction() * M_PI / 2;
    return p;
}
static double lineHeading(const Line& l) { V d = l.endPoint() - l.startPoint(); return std::atan2(d.y(), d.x()); }
static double tangentAt(const Circle& c, const V& p) { V d = p - c.center(); return std::atan2(d.y(), d.x()) + c.direction() * M_PI / 2; }

// reference tangent circles of a segment and a circle (outside the circle), centers
static bool ref_tangent_centers(const V& a, const V& b, const V& c, double R, double rad, std::vector<V>& out) {
    double len = (b - a).norm(); V u = (b - a) / len, n(-u.y(), u.x());
    for (double s : {1.0, -1.0}) {
        V a2 = a + s * rad * n;
        double h = std::fabs(cross(u, c - a2)), t0 = (c - a2).dot(u), q = R + rad;
        if (std::fabs(h - q) < 1e-3) return false;
        if (h > q) continue;
        double k = std::sqrt(q * q - h * h);
        for (double t : {t0 - k, t0 + k}) {
            if (std::fabs(t) < 1e-3 || std::fabs(t - len) < 1e-3) return false;
            if (t > 0 && t < len) out.push_back(a2 + u * t);
        }
    }
    return true;
}

WORKLOAD("C29", line_and_circle, 120000, 2000000, 40, "segment, circle and radius: tangent circles, arcs and paths in both travel directions against reference centres and tangency; non-trivial: a tangent exists") {
    Rng& r = ctx.rng;
    V c = rv(r); double R = r.real(0.3, 6), rad = r.real(0.2, 5);
    int dir = r.chance(0.5) ? ARC_LEFT : ARC_RIGHT;
    double t = r.real(0, 6.28), off = r.real(-1.3, 1.3) * (R + 2 * rad), l1 = r.real(-3, 15), l2 = r.real(-3, 15);
    if (r.chance(0.15)) { double sc = r.pickd({0.3, 5, 30}); R *= sc; rad *= sc; off *= sc; l1 *= sc; l2 *= sc; }
    V u(std::cos(t), std::sin(t)), n(-u.y(), u.x());
    V a = c + off * n - l1 * u, b = c + off * n + l2 * u;
    if ((b - a).norm() < 0.3) return;
    ctx.in << "line " << pt(a) << pt(b) << " circle " << pt(c) << " R=" << R << " dir=" << dir << " radius=" << rad;
    ctx.mixd(R); ctx.mixd(rad); ctx.mixd(off); ctx.mixd(t);
    std::vector<V> want;
    if (!ref_tangent_centers(a, b, c, R, rad, want)) return;
    Line line(a, b); Circle circle(c, R, dir);
    u = (b - a).normalized(); n = V(-u.y(), u.x());
    aligned<Circle>::vector res((size_t)r.range(0, 1), Circle(V(0, 0), 1));
    Tangentor::tangentCircles(line, circle, rad, res);
    std::vector<V> centers;
    for (auto& k : res) {
        centers.push_back(k.center());
        ctx.check(std::fabs(k.radius() - rad) < 1e-9 && k.direction() == -dir, "tangent-circle:radius", "tangent circle with another radius or direction");
    }
    same_points(ctx, centers, want, "tangent-circles", 1e-4);
    if (!want.empty()) ctx.interesting();
    // only circles on the side they turn to can be joined without a reversal
    std::vector<V> usable;
    for (auto& p : want) if ((-dir > 0) == (cross(u, p - a) > 0)) usable.push_back(p);
    for (int to = 0; to < 2; ++to) {
        aligned<Circle>::vector arcs((size_t)r.range(0, 1), Circle(V(0, 0), 1));
        if (to) Tangentor::tangentArc(line, circle, rad, arcs); else Tangentor::tangentArc(circle, line, rad, arcs);
        centers.clear();
        double best = 1e9;
        for (auto& k : arcs) {
            centers.push_back(k.center());
            Piece p = piece_of(k);
            V onl = to ? p.s : p.e, onc = to ? p.e : p.s;
            double hl = to ? p.hs : p.he, hc = to ? p.he : p.hs;
            ctx.check(segdist(a, b, onl) < 1e-4, "tangent-arc:line", str("arc end ", pt(onl), " is not on the line"));
            ctx.check(std::fabs((onc - c).norm() - R) < 1e-4, "tangent-arc:circle", str("arc end ", pt(onc), " is not on the circle"));
            ctx.check(angdist(hl, std::atan2(u.y(), u.x())) < 1e-3, "tangent-arc:line-heading", str("arc meets the line with heading ", wrap(hl)));
            ctx.check(angdist(hc, tangentAt(circle, onc)) < 1e-3, "tangent-arc:circle-heading", str("arc meets the circle with heading ", wrap(hc)));
            ctx.check(std::fabs(k.radius() - rad) < 1e-9, "tangent-arc:radius", "tangent arc with another radius");
            best = std::min(best, k.getArcAngle());
            ctx.ev(to ? "arc line to circle" : "arc circle to line");
        }
        same_points(ctx, centers, usable, to ? "tangent-arcs-to-circle" : "tangent-arcs-to-line", 1e-4);
        std::vector<std::shared_ptr<Shape> > path(1);
        int entry = (int)r.range(0, 1);
        if (entry) Tangentor::tangentPath(std::shared_ptr<Shape>(make_aligned<Line>(line)), circle, rad, to, path);
        else if (to) Tangentor::tangentPath(line, circle, rad, path); else Tangentor::tangentPath(circle, line, rad, path);
        if (usable.empty()) { ctx.check(path.empty(), "tangent-path:spurious", "path although no tangent arc exists"); continue; }
        ctx.check(path.size() == 3 && path[0] && path[1] && path[2], "tangent-path:size", "path of a tangent arc has not three parts");
        for (int i = 0; i < 2; ++i)
            ctx.check((path[i]->endPoint() - path[i + 1]->startPoint()).norm() < 1e-4, "tangent-path:gap", str("path part ", i, " ends at ", pt(path[i]->endPoint()), ", next starts at ", pt(path[i + 1]->startPoint())));
        std::shared_ptr<Circle> arc = std::dynamic_pointer_cast<Circle>(path[1]), pc = std::dynamic_pointer_cast<Circle>(path[to ? 2 : 0]);
        std::shared_ptr<Line> pl = std::dynamic_pointer_cast<Line>(path[to ? 0 : 2]);
        ctx.check(arc && pc && pl, "tangent-path:kinds", "path parts are not line, arc and circle in travel order");
        ctx.check(std::fabs(arc->getArcAngle() - best) < 1e-6, "tangent-path:shortest", str("path uses an arc of ", arc->getArcAngle(), ", the shortest has ", best));
        ctx.check(pc->direction() == dir && (pc->center() - c).norm() < 1e-9 && std::fabs(pc->radius() - R) < 1e-9, "tangent-path:circle", "circle of the path differs from the given one");
        if (to) ctx.check((pl->startPoint() - a).norm() < 1e-9, "tangent-path:line-start", "path does not start at the line's start");
        else ctx.check((pl->endPoint() - b).norm() < 1e-9, "tangent-path:line-end", "path does not end at the line's end");
        ctx.ev("tangent paths");
    }
}

WORKLOAD("C29", circle_in_circle, 120000, 2000000, 40, "two circles of opposite direction and a radius: inner tangent circles, arcs and paths in both travel directions against reference; non-trivial: a tangent circle exists") {
    Rng& r = ctx.rng;
    V c2 = rv(r); double R2 = r.real(2, 12), R1 = r.real(0.3, 4), rad = r.real(0.2, R2 * 1.05);
    int dir2 = r.chance(0.5) ? ARC_LEFT : ARC_RIGHT, dir1 = r.chance(0.15) ? dir2 : -dir2;
    double t = r.real(0, 6.28), d = r.real(0.01, R1 + R2 + 0.5);
    if (r.chance(0.15)) { double sc = r.pickd({0.3, 5, 30}); R1 *= sc; R2 *= sc; rad *= sc; d *= sc; }
    V c1 = c2 + d * V(std::cos(t), std::sin(t));
    ctx.in << "circle1 " << pt(c1) << " R=" << R1 << " dir=" << dir1 << " circle2 " << pt(c2) << " R=" << R2 << " dir=" << dir2 << " radius=" << rad;
    ctx.mixd(R1); ctx.mixd(R2); ctx.mixd(rad); ctx.mixd(d);
    std::vector<V> want;
    if (std::fabs(rad - R2) < 1e-2) return;
    if (rad < R2 && !circle_points(c1, R1 + rad, c2, R2 - rad, want, 1e-2)) return;
    Circle k1(c1, R1, dir1), k2(c2, R2, dir2);
    // where the circles are arcs, keep their ends away from the touching points
    bool arcs = r.chance(0.5);
    RArc A1 = {c1, R1, dir1 > 0 ? 0 : 2 * M_PI, 2 * M_PI, dir1}, A2 = {c2, R2, dir2 > 0 ? 0 : 2 * M_PI, 2 * M_PI, dir2};
    if (arcs) {
        A1.s = r.real(0, 6.28); A1.arc = r.real(0.5, 6.2); A2.s = r.real(0, 6.28); A2.arc = r.real(0.5, 6.2);
        k1.setArc(A1.s, A1.arc, dir1); k2.setArc(A2.s, A2.arc, dir2);
        ctx.in << " " << A1.dump() << " " << A2.dump();
    }
    aligned<Circle>::vector res((size_t)r.range(0, 1), Circle(V(0, 0), 1));
    Tangentor::tangentInnerCircles(k1, k2, rad, res);
    std::vector<V> centers;
    for (auto& k : res) {
        centers.push_back(k.center());
        ctx.check(std::fabs(k.radius() - rad) < 1e-9 && k.direction() == dir2, "inner-circle:radius", "tangent circle with another radius or direction");
    }
    same_points(ctx, centers, want, "inner-circles", 1e-4);
    if (!want.empty()) ctx.interesting();
    // touching points and the arc between them, per tangent circle and travel direction
    std::vector<double> sweep12, sweep21;
    for (auto& p : want) {
        V t1 = p + rad * (c1 - p).normalized(), t2 = p + rad * (p - c2).normalized();
        if (A1.endMargin(t1) < 1e-4 || A2.endMargin(t2) < 1e-4) return;
        // arc ends of the tangent circle itself, a full one starting at angle 0
        RArc T = {p, rad, 0, 2 * M_PI, 1};
        if (T.endMargin(t1) < 1e-4 || T.endMargin(t2) < 1e-4) return;
        if (!A1.covers(t1) || !A2.covers(t2)) continue;
        double a1 = std::atan2(t1.y() - p.y(), t1.x() - p.x()), a2 = std::atan2(t2.y() - p.y(), t2.x() - p.x());
        sweep12.push_back(pos2pi(dir2 * (a2 - a1)));
        sweep21.push_back(pos2pi(dir2 * (a1 - a2)));
    }
    aligned<Circle>::vector ia((size_t)r.range(0, 1), Circle(V(0, 0), 1));
    Tangentor::tangentInnerArcs(k1, k2, rad, ia);
    size_t expect = dir1 != dir2 && !sweep12.empty() ? 1 : 0;
    ctx.check(ia.size() == expect, "inner-arcs:count", str(ia.size(), " inner arcs, expected ", expect));
    if (expect) {
        Piece p = piece_of(ia[0]);
        ctx.check(std::fabs((p.s - c1).norm() - R1) < 1e-4 && std::fabs((p.e - c2).norm() - R2) < 1e-4, "inner-arcs:ends", "arc does not go from circle 1 to circle 2");
        ctx.check(A1.covers(p.s) && A2.covers(p.e), "inner-arcs:on-arcs", "arc meets the circles outside of their arcs");
        ctx.check(angdist(p.hs, tangentAt(k1, p.s)) < 1e-3 && angdist(p.he, tangentAt(k2, p.e)) < 1e-3, "inner-arcs:heading", "arc does not meet the circles tangentially in travel direction");
        double best = *std::min_element(sweep12.begin(), sweep12.end());
        ctx.check(std::fabs(ia[0].getArcAngle() - best) < 1e-4, "inner-arcs:shortest", str("arc of ", ia[0].getArcAngle(), ", shortest is ", best));
        ctx.ev("inner arcs");
    }
    if (dir1 == dir2) return;
    for (int from_small = 0; from_small < 2; ++from_small) {
        std::vector<std::shared_ptr<Shape> > path(1);
        if (r.chance(0.5)) Tangentor::tangentPath(k1, k2, rad, (bool)from_small, path);
        else Tangentor::tangentPath(std::shared_ptr<Shape>(make_aligned<Circle>(k2)), k1, rad, !from_small, path);
        const std::vector<double>& sw = from_small ? sweep12 : sweep21;
        double best = sw.empty() ? 1e9 : *std::min_element(sw.begin(), sw.end());
        if (std::fabs(best - M_PI) < 1e-4) continue;
        if (best > M_PI) { ctx.check(path.empty(), "inner-path:spurious", "path although every tangent arc is missing or longer than half a circle"); continue; }
        ctx.check(path.size() == 3, "inner-path:missing", str("no path (", path.size(), " parts) although a tangent arc of ", best, " exists, ", from_small ? "from the inner circle" : "to the inner circle"));
        for (int i = 0; i < 2; ++i)
            ctx.check((path[i]->endPoint() - path[i + 1]->startPoint()).norm() < 1e-4, "inner-path:gap", str("path part ", i, " ends at ", pt(path[i]->endPoint()), ", next starts at ", pt(path[i + 1]->startPoint())));
        std::shared_ptr<Circle> q[3];
        for (int i = 0; i < 3; ++i) { q[i] = std::dynamic_pointer_cast<Circle>(path[i]); ctx.check(!!q[i], "inner-path:kind", "path part is no circle"); }
        const V& first = from_small ? c1 : c2;
        ctx.check((q[0]->center() - first).norm() < 1e-9 && std::fabs(q[1]->radius() - rad) < 1e-9 && std::fabs(q[1]->getArcAngle() - best) < 1e-4, "inner-path:arc", str("tangent arc of ", q[1]->getArcAngle(), ", shortest is ", best));
        Piece p = piece_of(*q[1]);
        ctx.check(angdist(p.hs, tangentAt(*q[0], p.s)) < 1e-3 && angdist(p.he, tangentAt(*q[2], p.e)) < 1e-3, "inner-path:heading", "path has a kink");
        ctx.ev(from_small ? "paths from the inner circle" : "paths to the inner circle");
    }
}

// ------------------------------------------------------------------ points and poses
using lib_path::Point2d;
using lib_path::Pose2d;

WORKLOAD("C30", points, 200000, 4000000, 60, "random points, poses, angles and factors: every operator against plane vector algebra; non-trivial: all") {
    Rng& r = ctx.rng;
    double m = r.pickd({1, 10, 1000, 1e-3});
    double ax = r.real(-m, m), ay = r.real(-m, m), bx = r.real(-m, m), by = r.real(-m, m), k = r.real(-5, 5), t = r.real(-10, 10), s = r.real(-10, 10);
    if (r.chance(0.1)) ax = 0;
    if (r.chance(0.1)) by = 0;
    if (std::fabs(k) < 1e-3) k = 1;
    ctx.in << ax << " " << ay << " " << bx << " " << by << " k=" << k << " t=" << t;
    ctx.mixd(ax); ctx.mixd(by); ctx.mixd(t);
    ctx.interesting();
    const double E = 1e-9 * m;
    {                                       // a pose made of nothing is the origin, also on used memory
        alignas(Pose2d) unsigned char mem[sizeof(Pose2d)];
        for (unsigned char& c : mem) c = (unsigned char)r.range(1, 255);
        Pose2d* o = new (mem) Pose2d(); ctx.check(o->x == 0 && o->y == 0 && o->theta == 0, "default", "default pose is not the origin"); o->~Pose2d();
    }
    Point2d a(ax, ay), b(bx, by);
    auto near = [&](const Point2d& p, double x, double y, const char* what, double e) {
        ctx.check(std::fabs(p.x - x) <= e && std::fabs(p.y - y) <= e, std::string("point:") + what, str(what, ": got ", p, " expected ", x, " ", y));
    };
    near(a + b, ax + bx, ay + by, "sum", E); near(a - b, ax - bx, ay - by, "difference", E); near(-a, -ax, -ay, "negation", E);
    near(a * k, ax * k, ay * k, "product", 10 * E); near(a / k, ax / k, ay / k, "quotient", 1000 * E);
    Point2d c = a; Point2d c2 = (c *= k);
    near(c, ax * k, ay * k, "scaling", 10 * E); near(c2, ax * k, ay * k, "scaling result", 10 * E);
    Point2d rt = a.rotate(t);
    near(rt, std::cos(t) * ax - std::sin(t) * ay, std::sin(t) * ax + std::cos(t) * ay, "rotation", 10 * E);
    near(rt.rotate(s), std::cos(t + s) * ax - std::sin(t + s) * ay, std::sin(t + s) * ax + std::cos(t + s) * ay, "composed rotation", 20 * E);
    double len = std::sqrt(ax * ax + ay * ay);
    ctx.check(std::fabs(rt.length() - len) < 10 * E && std::fabs(a.length() - len) < 10 * E && std::fabs(a.distance_to_origin() - len) < 10 * E, "point:length", "length of a point or of its rotation");
    Point2d o = a.ortho();
    ctx.check(std::fabs(o.x * ax + o.y * ay) < 10 * E * m && std::fabs(o.length() - len) < 10 * E, "point:ortho", str("orthogonal of ", a, " is ", o));
    if (len > 1e-3 * m) {
        near(a.normalize(), ax / len, ay / len, "normalisation", 1e-9);
        double z = r.real(0.1, 9);
        near(a.resize(z), ax / len * z, ay / len * z, "resizing", 1e-8);
        ctx.check(angdist(a.angle(), std::atan2(ay, ax)) < 1e-9, "point:angle", str("angle ", a.angle()));
        Point2d pol = Point2d::from_polar(a.angle(), a.length());
        near(pol, ax, ay, "polar", 10 * E);
    }
    ctx.check((a == Point2d(ax, ay)) && !(a != Point2d(ax, ay)) && (a == Point2d(ax + m, ay)) == false && (a != Point2d(ax, ay + m)), "point:equality", "equality of points");
    Pose2d p(ax, ay, t), q(bx, by, s);
    near(Point2d(p), ax, ay, "pose to point", 0);
    double d = std::sqrt((ax - bx) * (ax - bx) + (ay - by) * (ay - by));
    ctx.check(std::fabs(p.distance_to(q) - d) < 10 * E && std::fabs(q.distance_to(p) - d) < 10 * E && std::fabs(p.distance_to_origin() - len) < 10 * E, "pose:distance", "distance of poses");
    Pose2d sum = p + q, dif = p - q, pr = p * (float)k, pl = (float)k * p, qu = p / (float)k;
    float kf = (float)k;
    near(Point2d(sum), ax + bx, ay + by, "pose sum", E); near(Point2d(dif), ax - bx, ay - by, "pose difference", E);
    near(Point2d(pr), ax * kf, ay * kf, "pose product", 1e-5 * m); near(Point2d(pl), ax * kf, ay * kf, "pose product", 1e-5 * m); near(Point2d(qu), ax / kf, ay / kf, "pose quotient", 1e-4 * m * 10);
    ctx.check(std::fabs(lib_path::dot(p, q) - (ax * bx + ay * by)) < 10 * E * m, "pose:dot", "dot product of poses");
    // identity within tolerances
    double de = r.real(0.01, 1), te = r.real(0.01, 1), dd = de * r.real(0, 2), dt = te * r.real(0, 2), dir = r.real(0, 6.28);
    if (std::fabs(dd - de) > 1e-6 && std::fabs(dt - te) > 1e-6) {
        double sg = r.chance(0.5) ? 1 : -1;
        bool want = dd < de && dt < te;
        Pose2d near1(ax + dd * std::cos(dir), ay + dd * std::sin(dir), t + sg * dt + 2 * M_PI * r.range(-1, 1));
        ctx.check(p.isEqual(near1, de, te) == want && near1.isEqual(p, de, te) == want, "pose:equal", str("poses ", dd, " (tolerance ", de, ") and ", sg * dt, " rad (tolerance ", te, ") apart"));
        PathPose P(ax, ay, t), Q(near1.x, near1.y, near1.theta);
        ctx.check(P.isIdentical(Q, de, te) == want && Q.isIdentical(P, de, te) == want, "pathpose:identical", str("path poses ", dd, " (tolerance ", de, ") and ", sg * dt, " rad (tolerance ", te, ") apart"));
        ctx.check(P.isIdentical(Q.pos_, de) == (dd < de), "pathpose:identical-point", "path pose against point");
        ctx.check(P.isIdentical(P), "pathpose:self", "path pose differs from itself");
        ctx.ev(want ? "poses within tolerance" : "poses beyond tolerance");
    }
    PathPose as; as.assign(V(bx, by), s);
    ctx.check(as.pos_.x() == bx && as.pos_.y() == by && as.theta_ == s, "pathpose:assign", "assigned pose differs");
}

// ------------------------------------------------------------------ rounding
static_assert(tmpmath::round(2.5) == 3 && tmpmath::round(-2.5) == -3 && tmpmath::round(0.2) == 0, "usable in constant expressions");

WORKLOAD("C31", rounding, 400000, 8000000, 500, "random doubles in the int range, integers, halves and their floating-point neighbours against exact rounding; non-trivial: all") {
    Rng& r = ctx.rng;
    ctx.interesting();
    for (int i = 0; i < 4; ++i) {
        double x;
        switch (r.range(0, 5)) {
        case 0: x = r.real(-2147483647.0, 2147483646.0); break;
        case 1: x = r.real(-2, 2); break;
        case 2: x = (double)r.range(-100, 100) + 0.5; break;
        case 3: x = (double)(int)r.range(INT_MIN + 2, INT_MAX - 2) + r.pickd({0.5, -0.5, 0, 0.25}); break;
        case 4: x = std::ldexp(r.real(-1, 1), (int)r.range(-1070, 30)); break;
        default: x = (double)r.range(-1000000, 1000000) / (double)(1 << r.range(0, 12));
        }
        int k = (int)r.range(-2, 2);
        for (; k > 0; --k) x = std::nextafter(x, 1e300);
        for (; k < 0; ++k) x = std::nextafter(x, -1e300);
        if (i == 0 && ctx.idx < 8) x = (ctx.idx & 1 ? -1 : 1) * (ctx.idx & 2 ? std::nextafter(0.5, 0) : ctx.idx & 4 ? 2147483646.5 : 0.0);
        if (!(x > -2147483647.5 && x < 2147483646.75)) continue;
        ctx.mixd(x);
        double fl = std::floor(std::fabs(x)), fr = std::fabs(x) - fl;   // exact
        double want = fr >= 0.5 ? fl + 1 : fl;
        if (x < 0) want = -want;
        int got = tmpmath::round(x);
        ctx.in << x << " ";
        ctx.check((double)got == want, "round", str("round(", x, ") = ", got, " expected ", want));
        ctx.ev(fr == 0.5 ? "exact half" : "not a half");
    }
}
