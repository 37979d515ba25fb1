// Reeds-Shepp curves: C16 (geometry of the samples), C17 (obstacles), C18 (cheapest, true cost), C37 (weights from map values), C19 (parser).
#include "maps.hpp"
#include <memory>
#include <cslibs_path_planning/ReedsShepp/CurveGenerator.h>
#include <cslibs_path_planning/common/SimpleGridMap2d.h>

using namespace vf;
using namespace lib_path;

namespace {

const double INF = std::numeric_limits<double>::infinity();
const double NOTFREE = 999999;

struct SegDef { bool line, left, back; };
typedef std::vector<SegDef> Word;

// Reference reading of a pattern: L R S, '|' toggles the driving direction, parentheses hold only 'b' and 'p'
// (one level, closed); a 'b' needs a preceding circle.
bool read_word(const std::string& s, Word& w) {
    bool back = false, sub = false;
    w.clear();
    for (char c : s) {
        if (sub) {
            if (c == ')') sub = false;
            else if (c == 'p') ;
            else if (c == 'b') { if (w.empty() || w.back().line) return false; }
            else return false;
        } else if (c == '(') sub = true;
        else if (c == '|') back = !back;
        else if (c == 'S') w.push_back(SegDef{true, false, back});
        else if (c == 'L' || c == 'R') w.push_back(SegDef{false, c == 'L', back});
        else return false;
    }
    return !sub;
}
// Words the generator can turn into curves: C S C and chains of 3 or 4 alternating circles.
bool solvable(const Word& w) {
    if (w.size() == 3 && !w[0].line && w[1].line && !w[2].line) return true;
    if (w.size() != 3 && w.size() != 4) return false;
    for (size_t i = 0; i < w.size(); ++i) if (w[i].line || (i && w[i].left == w[i - 1].left)) return false;
    return true;
}

struct Cost { double fwd, bwd, curve, straight; };

// An interval of possible values: arcs next to 0 or 2 pi may come out as either.
struct Sol {
    bool ok;                       // geometrically possible (certainly or perhaps)
    bool sure;                     // certainly possible
    double wlo, whi, alo, ahi;     // weight and total arc
    Sol() : ok(false), sure(false), wlo(0), whi(0), alo(0), ahi(0) {}
};

struct Pt { double x, y; };
Pt center(const Pose2d& p, bool left, double r) {
    double s = left ? r : -r;
    return Pt{p.x - s * std::sin(p.theta), p.y + s * std::cos(p.theta)};
}

void add_arc(Sol& s, const SegDef& d, double from, double to, double r, const Cost& c) {
    double sign = (d.left != d.back) ? 1 : -1;
    double a = sign * (to - from);
    a = std::fmod(a, 2 * M_PI);
    if (a < 0) a += 2 * M_PI;
    double k = r * (d.back ? c.bwd : c.fwd) * c.curve;
    double lo = a, hi = a;
    const double eps = 2e-5;
    if (a < eps || a > 2 * M_PI - eps) { lo = 0; hi = 2 * M_PI; }
    s.wlo += lo * k; s.whi += hi * k; s.alo += lo; s.ahi += hi;
}
// All solutions of a word (lengths in cells).
std::vector<Sol> solve(const Word& w, const Pose2d& a, const Pose2d& b, double r, const Cost& c) {
    std::vector<Sol> res;
    if (!solvable(w)) return res;
    Pt s = center(a, w.front().left, r), g = center(b, w.back().left, r);
    double dx = g.x - s.x, dy = g.y - s.y, D = std::hypot(dx, dy), phi = std::atan2(dy, dx);
    const double eps = 1e-4;
    if (w.size() == 3 && w[1].line) {
        if (D < 2 * r - eps) return res;
        Sol o; o.ok = true; o.sure = D > 2 * r + eps;
        double dl = w[1].back ? -1 : 1, th, len;
        if (w[0].left == w[2].left) { len = D; th = phi + (w[1].back ? M_PI : 0); }
        else {
            double sg = w[0].left ? 1 : -1;
            len = std::sqrt(std::max(0.0, D * D - 4 * r * r));
            th = phi - std::atan2(-2 * r * sg, dl * len);
        }
        add_arc(o, w[0], a.theta, th, r, c);
        add_arc(o, w[2], th, b.theta, r, c);
        double k = (w[1].back ? c.bwd : c.fwd) * c.straight;
        // near touching circles the line's length is ill-conditioned
        double slack = w[0].left == w[2].left ? 0 : (D - 2 * r < 0.01 ? 0.5 : 0);
        o.wlo += std::max(0.0, len - slack) * k; o.whi += (len + slack) * k;
        if (slack) { o.wlo -= slack * k; o.wlo = std::max(0.0, o.wlo); }
        res.push_back(o);
        return res;
    }
    double maxd = w.size() == 3 ? 4 * r : 6 * r;
    if (D > maxd + eps || D < 2 - eps) return res;
    bool sure = D < maxd - eps && D > 2 + eps;
    double base = w.size() == 3 ? D / 2 : D / 2 - r;
    double gam = std::acos(std::min(1.0, std::max(-1.0, base / (2 * r))));
    for (int sg = 1; sg >= -1; sg -= 2) {
        Sol o; o.ok = true; o.sure = sure;
        std::vector<Pt> ctr;
        ctr.push_back(s);
        ctr.push_back(Pt{s.x + 2 * r * std::cos(phi + sg * gam), s.y + 2 * r * std::sin(phi + sg * gam)});
        if (w.size() == 4) ctr.push_back(Pt{ctr[1].x + 2 * r * std::cos(phi), ctr[1].y + 2 * r * std::sin(phi)});
        ctr.push_back(g);
        double prev = a.theta;
        for (size_t i = 0; i < w.size(); ++i) {
            double nx;
            if (i + 1 == w.size()) nx = b.theta;
            else {
                double u = std::atan2(ctr[i + 1].y - ctr[i].y, ctr[i + 1].x - ctr[i].x);
                nx = u + (w[i].left ? M_PI / 2 : -M_PI / 2);
            }
            add_arc(o, w[i], prev, nx, r, c);
            prev = nx;
        }
        if (maxd - D < 0.01) { o.wlo *= 0.9; o.whi *= 1.1; }   // ill-conditioned angle
        res.push_back(o);
    }
    return res;
}

struct Bound { double lo, hi; };          // of the cheapest weight; hi = INF: perhaps none
// The cheapest weight among the words.
Bound cheapest(const std::vector<Word>& words, const Pose2d& a, const Pose2d& b, double r, const Cost& c, double max_arc) {
    Bound best = {INF, INF};
    if (std::hypot(a.x - b.x, a.y - b.y) < 2) return best;
    for (const Word& w : words) {
        std::vector<Sol> s = solve(w, a, b, r, c);
        if (s.empty()) continue;
        // a word's cheaper symmetric variant is the one that counts
        double lo = INF, hi = INF;
        bool maybe_arc = false, sure = true;
        double whi = INF;
        for (const Sol& o : s) whi = std::min(whi, o.whi);
        for (const Sol& o : s) {
            if (o.wlo > whi * (1 + 1e-5) + 1e-3) continue;    // certainly not the cheaper one
            if (o.alo < max_arc + 1e-4) { maybe_arc = true; lo = std::min(lo, o.wlo); }
            if (!(o.ahi < max_arc - 1e-4) || !o.sure) sure = false;
        }
        if (!maybe_arc) continue;
        if (sure) hi = whi;
        best.lo = std::min(best.lo, lo);
        best.hi = std::min(best.hi, hi);
    }
    return best;
}

struct Setup {
    double res, radius, step;      // meters
    Cost cost;
    double max_arc;
    bool set_arc;
    std::vector<std::string> pats;
    std::vector<Word> words;
    double r() const { return radius / res; }
    double d() const { return step / res; }
};
const char* PATTERNS[] = {
    "LSL", "LSR", "RSL", "RSR", "|LSL", "|LSR", "|RSL", "|RSR", "|L|SL", "|L|SR", "|R|SL", "|R|SR", "LS|L", "LS|R", "RS|L", "RS|R",
    "L|SL", "L|SR", "R|SL", "R|SR", "L|S|L", "L|S|R", "R|S|L", "R|S|R", "|LS|L", "|LS|R", "|RS|L", "|RS|R", "|L|S|L", "|L|S|R", "|R|S|L",
    "|R|S|R", "LRL", "RLR", "L|R|L", "R|L|R", "|L|R|L", "|R|L|R", "LR|L", "RL|R", "|LR|L", "|RL|R", "L|RL", "R|LR", "|L|RL", "|R|LR",
    "LR(b)|L(b)R", "|LR(b)|L(b)R", "RL(b)|R(b)L", "|RL(b)|R(b)L", "L|R(b)L(b)|R", "R|L(b)R(b)|L", "|L|R(b)L(b)|R", "|R|L(b)R(b)|L",
    "|LRL", "|RLR", "LRLR", "RLRL"};
const int NPAT = sizeof(PATTERNS) / sizeof(*PATTERNS);

Setup gen_setup(Rng& r) {
    Setup s;
    s.res = r.pickd({0.02, 0.05, 0.1, 0.25, 1.0});
    s.radius = s.res * (r.chance(0.2) ? r.pickd({2, 4, 10}) : r.real(1.5, 30));
    s.step = s.res * (r.chance(0.3) ? r.pickd({0.25, 0.5, 1, 2, 5}) : r.real(0.2, 12));
    s.cost = Cost{1, 1, 1, 1};
    if (r.chance(0.6)) s.cost = Cost{r.pickd({1, 1, 0.5, 2}), r.pickd({1, 2, 5, 0.3}), r.pickd({1, 1.3, 3}), r.pickd({1, 0.7, 2})};
    s.set_arc = r.chance(0.5);
    s.max_arc = s.set_arc ? r.pickd({M_PI, 2 * M_PI, 1.0, 3 * M_PI / 2, 20}) : INF;
    int n;
    switch (r.range(0, 4)) { case 0: n = 1; break; case 1: n = NPAT; break; case 2: n = 4; break; default: n = (int)r.range(1, 12); }
    for (int i = 0; i < n; ++i) s.pats.push_back(n == NPAT ? PATTERNS[i] : PATTERNS[r.range(0, NPAT - 1)]);
    for (auto& p : s.pats) { Word w; read_word(p, w); s.words.push_back(w); }
    return s;
}
void configure(CurveGenerator& g, const Setup& s, const std::vector<std::string>& pats) {
    std::ostringstream o;
    for (auto& p : pats) g.parse(p, o);
    g.set_circle_radius(s.radius);
    g.set_max_waypoint_distance(s.step);
    // the costs of a new generator are 1
    if (s.cost.fwd != 1) g.set_cost_forwards(s.cost.fwd);
    if (s.cost.bwd != 1) g.set_cost_backwards(s.cost.bwd);
    if (s.cost.curve != 1) g.set_cost_curve(s.cost.curve);
    if (s.cost.straight != 1) g.set_cost_straight(s.cost.straight);
    if (s.set_arc) g.set_max_curve_arc(s.max_arc);
}
// A generator in use gets other settings (or its map another resolution) between two requests.
void vary(Ctx& ctx, CurveGenerator& g, SimpleGridMap2d& m, Setup& s) {
    Rng& r = ctx.rng;
    if (r.chance(0.4)) { s.radius *= r.real(0.5, 1.1); g.set_circle_radius(s.radius); }
    if (r.chance(0.4)) { s.step *= r.real(0.5, 1.5); g.set_max_waypoint_distance(s.step); }
    if (r.chance(0.2)) { s.cost.fwd = r.pickd({1, 0.5, 2}); g.set_cost_forwards(s.cost.fwd); }
    if (r.chance(0.2)) { s.cost.bwd = r.pickd({1, 2, 5, 0.3}); g.set_cost_backwards(s.cost.bwd); }
    if (r.chance(0.2)) { s.cost.curve = r.pickd({1, 1.3, 3}); g.set_cost_curve(s.cost.curve); }
    if (r.chance(0.2)) { s.cost.straight = r.pickd({1, 0.7, 2}); g.set_cost_straight(s.cost.straight); }
    if (r.chance(0.2)) { s.set_arc = true; s.max_arc = r.pickd({M_PI, 2 * M_PI, 1.0, 3 * M_PI / 2, 20}); g.set_max_curve_arc(s.max_arc); }
    if (r.chance(0.2)) { double f = r.pickd({1.5, 2}); s.res *= f; s.radius = std::max(s.radius, 1.5 * s.res); m.setResolution(s.res); g.set_circle_radius(s.radius); }
    ctx.ev("settings changed");
}
std::string show(const Setup& s) {
    std::ostringstream o;
    o.precision(17);
    o << "res=" << s.res << " r=" << s.radius << " step=" << s.step << " cost=" << s.cost.fwd << "/" << s.cost.bwd << "/" << s.cost.curve << "/" << s.cost.straight
      << " arc=" << (s.set_arc ? s.max_arc : -1) << " words";
    for (auto& p : s.pats) o << " " << p;
    return o.str();
}

std::unique_ptr<SimpleGridMap2d> lib_map(const GMap& g, double res) {
    std::unique_ptr<SimpleGridMap2d> m(new SimpleGridMap2d(g.w, g.h, res));
    m->setLowerThreshold(100); m->setUpperThreshold(200);
    for (int y = 0; y < g.h; ++y) for (int x = 0; x < g.w; ++x) m->setValue(x, y, g.at(x, y) == FREE ? 0 : g.at(x, y) == OCC ? 255 : 150);
    return m;
}
std::vector<Pose2d> sample(Ctx& ctx, Curve* c, const Setup& s) {
    std::vector<Pose2d> v;
    c->reset_iteration();
    double limit = 64 + (20 * M_PI * s.r() + 4000) / s.d();
    while (c->has_next()) {
        v.push_back(c->next());
        if (v.size() > limit) ctx.fail("endless", "the curve's iteration does not end");
    }
    return v;
}

void request(Rng& r, const Setup& s, double side, Pose2d& a, Pose2d& b) {
    double R = s.r(), m = std::min(side / 2 - 0.5, 2 * R + 6);
    if (r.chance(0.1)) m = 0;
    a = Pose2d(r.real(m, side - m), r.real(m, side - m), r.real(-M_PI, M_PI));
    double d = r.chance(0.2) ? r.real(0.5, 4) : r.chance(0.5) ? r.real(1.5, 7 * R) : r.real(2, side);
    double dir = r.real(-M_PI, M_PI);
    if (r.chance(0.15)) dir = a.theta + r.pickd({0, M_PI / 2, M_PI, -M_PI / 2});
    b = Pose2d(a.x + d * std::cos(dir), a.y + d * std::sin(dir), r.real(-M_PI, M_PI));
    if (r.chance(0.15)) b.theta = wrap(a.theta + r.pickd({0, M_PI / 2, M_PI, -M_PI / 2}));
    if (r.chance(0.1)) { a.theta = r.range(-2, 2) * M_PI / 2; b.theta = r.range(-2, 2) * M_PI / 2; a.x = std::floor(a.x); a.y = std::floor(a.y); b.x = std::floor(b.x); b.y = std::floor(b.y); }
    if (r.chance(0.05)) { a.theta += 2 * M_PI * r.range(-1, 1); b.theta += 2 * M_PI * r.range(-1, 1); }
}

// Independent validation of a sampled curve; returns for the matching word the driven weight.
// kind: 'L' line / 'C' circle motion
void validate(Ctx& ctx, const Setup& s, const Pose2d& a, const Pose2d& b, const std::vector<Pose2d>& v, double weight, double arc) {
    double r = s.r(), tol = 1e-3 + 4e-6 * r;       // the library computes the angles of a curve in floats
    ctx.check(v.size() >= 2, "samples", str("only ", v.size(), " samples"));
    ctx.check(std::hypot(v[0].x - a.x, v[0].y - a.y) < tol && angdist(v[0].theta, a.theta) < 1e-4, "start",
              str("first sample ", v[0].x, ",", v[0].y, ",", v[0].theta, " is not the start"));
    const Pose2d& e = v.back();
    // touching circles: angles are ill-conditioned there
    ctx.check(std::hypot(e.x - b.x, e.y - b.y) < tol + 1e-2, "goal", str("last sample ", e.x, ",", e.y, " is not the goal ", b.x, ",", b.y));
    ctx.check(angdist(e.theta, b.theta) < 1e-3, "goal-heading", str("last heading ", e.theta, " is not the goal's ", b.theta));
    // motions
    size_t n = v.size() - 1;
    struct Mo { double len, turn; int dir; bool line, circ, zero; };
    std::vector<Mo> mo(n);
    for (size_t i = 0; i < n; ++i) {
        const Pose2d &p = v[i], &q = v[i + 1];
        double dx = q.x - p.x, dy = q.y - p.y, ch = std::hypot(dx, dy), dt = wrap(q.theta - p.theta);
        Mo& m = mo[i];
        m.zero = ch < tol && std::fabs(dt) < 1e-4 + 1e-3 / r;
        m.line = m.circ = false; m.dir = 0; m.len = ch; m.turn = dt;
        ctx.ev("curve motions");
        ctx.check(std::isfinite(ch) && std::isfinite(dt), "finite", "a sample is not finite");
        ctx.check(ch <= s.d() * 1.0001 + tol, "gap", str("samples ", i, " and ", i + 1, " are ", ch, " apart, allowed ", s.d()));
        if (m.zero) continue;
        double mid = p.theta + dt / 2;
        if (ch > 1e-9) {
            double along = dx * std::cos(mid) + dy * std::sin(mid), across = -dx * std::sin(mid) + dy * std::cos(mid);
            // a motion of more than half a circle between two samples has the heading the other way around
            if (std::fabs(across) < tol + 1e-4 * ch) {
                m.dir = along > 0 ? 1 : -1;
                if (std::fabs(dt) < 1e-4 + 1e-3 / r) m.line = true;
                double want = 2 * r * std::fabs(std::sin(dt / 2));
                if (std::fabs(want - ch) < tol + 1e-4 * ch) { m.circ = true; m.len = r * std::fabs(dt); }
            }
        }
        ctx.check(m.line || m.circ, "motion", str("samples ", i, " (", p.x, ",", p.y, ",", p.theta, ") and ", i + 1, " (", q.x, ",", q.y, ",", q.theta,
                  ") are connected neither by a straight nor by an arc of the turning radius ", r));
    }
    // the motions follow one of the words, and the driven lengths give the reported weight
    bool matched = false, weighted = false;
    for (const Word& w : s.words) {
        if (!solvable(w)) continue;
        // every motion belongs to the current or a later segment; dynamic program over (segment) with min/max weight
        std::vector<std::pair<double, double> > st(w.size(), std::make_pair(INF, -INF));
        for (auto& x : st) x = std::make_pair(0.0, 0.0);
        bool ok = true;
        for (size_t i = 0; i < n && ok; ++i) {
            const Mo& m = mo[i];
            std::vector<std::pair<double, double> > nx(w.size(), std::make_pair(INF, -INF));
            std::pair<double, double> acc(INF, -INF);
            ok = false;
            for (size_t k = 0; k < w.size(); ++k) {
                acc.first = std::min(acc.first, st[k].first); acc.second = std::max(acc.second, st[k].second);
                if (acc.first > acc.second) continue;
                double unit = (w[k].back ? s.cost.bwd : s.cost.fwd) * (w[k].line ? s.cost.straight : s.cost.curve);
                bool fits;
                if (m.zero) fits = true;
                else if (w[k].line) fits = m.line && m.dir == (w[k].back ? -1 : 1);
                else fits = m.circ && m.dir == (w[k].back ? -1 : 1) && (std::fabs(m.turn) < 1e-3 || (m.turn > 0) == (w[k].left != w[k].back));
                if (fits) { nx[k] = std::make_pair(acc.first + unit * m.len, acc.second + unit * m.len); ok = true; }
            }
            st = nx;
        }
        if (!ok) continue;
        double lo = INF, hi = -INF;
        for (auto& x : st) { lo = std::min(lo, x.first); hi = std::max(hi, x.second); }
        if (lo > hi) continue;
        matched = true;
        double slack = (tol + 1e-4) * (w.size() + 1) * 5 + 2e-4 * std::max(weight, hi);
        if (weight >= lo - slack && weight <= hi + slack) weighted = true;
    }
    ctx.check(matched, "word", "the sampled motions follow none of the enabled words");
    ctx.check(weighted, "weight", str("reported weight ", weight, " is not the length times the costs of the driven motions"));
    double turned = 0;
    for (size_t i = 0; i < n; ++i) turned += std::fabs(mo[i].turn);
    ctx.check(std::fabs(turned - arc) < 1e-2 + 1e-4 * n, "arc", str("reported total arc ", arc, ", driven ", turned));
    ctx.ev("curves validated");
}

bool outside(const GMap& g, double x, double y, double by) { return x < -by || y < -by || x > g.w + by || y > g.h + by; }

} // namespace

WORKLOAD("C16", curve_geometry, 40000, 2000000, 10,
         "all word sets, radii, costs and sampling distances on a free map; each sample and motion validated against an independent model") {
    Rng& r = ctx.rng;
    Setup s = gen_setup(r);
    while (s.d() > 1.5 * s.r()) s.step *= 0.5;        // less than half a circle between samples
    double side = std::ceil(r.real(10, 40) + 6 * s.r());
    GMap g((int)side, (int)side);
    std::unique_ptr<SimpleGridMap2d> m(new SimpleGridMap2d(4, 4, s.res));   // obstacles are ignored
    bool ignore = r.chance(0.7);
    if (!ignore) m = lib_map(g, s.res);
    CurveGenerator gen;
    configure(gen, s, s.pats);
    if (r.chance(0.3)) {                        // a generator is a value as well
        CurveGenerator other;
        std::ostringstream o; other.parse("LSL", o);
        if (r.chance(0.5)) { CurveGenerator g2(gen); other = g2; } else other = gen;
        gen = other;
        ctx.ev("generators assigned");
    }
    std::unique_ptr<Curve> held;                // gets every curve assigned
    ctx.in << show(s);
    Pose2d a, b;
    for (int k = 0; k < 4; ++k) {
        if (k && r.chance(0.35)) {
            vary(ctx, gen, *m, s);
            while (s.d() > 1.5 * s.r()) s.step *= 0.5;
            gen.set_max_waypoint_distance(s.step);
            ctx.in << " | now " << show(s);
        }
        Pose2d a0 = a, b0 = b;
        request(r, s, side, a, b);
        if (k && r.chance(0.3)) a = a0;
        if (k && r.chance(0.3)) b = b0;
        ctx.in << " | " << a.x << "," << a.y << "," << a.theta << " -> " << b.x << "," << b.y << "," << b.theta;
        ctx.mixd(a.x); ctx.mixd(b.y);
        std::unique_ptr<Curve> c(gen.find_path(a, b, m.get(), ignore));
        if (!c) { ctx.ev("no curve"); continue; }
        ctx.interesting();
        ctx.check(c->is_valid() == (c->weight() >= 0.001 && c->weight() < NOTFREE), "valid", "validity and weight of the curve disagree");
        std::vector<Pose2d> v = sample(ctx, c.get(), s);
        Pose2d cs = c->start(), cg = c->goal();
        ctx.check(cs.x == a.x && cs.y == a.y && cs.theta == a.theta && cg.x == b.x && cg.y == b.y && cg.theta == b.theta, "ends", "the curve reports another start or goal");
        validate(ctx, s, a, b, v, c->weight(), c->curve_arc());
        // iterating again gives the same
        std::unique_ptr<Curve> cp(new Curve(*c));
        std::vector<Pose2d> v2 = sample(ctx, r.chance(0.5) ? c.get() : cp.get(), s);
        ctx.check(v.size() == v2.size(), "again", "a second iteration gives another number of samples");
        for (size_t i = 0; i < v.size(); ++i) ctx.check(v[i].x == v2[i].x && v[i].y == v2[i].y && v[i].theta == v2[i].theta, "again", "a second iteration gives other samples");
        // an assigned curve is the same curve, whatever becomes of the other
        if (!held) held.reset(new Curve(*c)); else *held = *c;
        Curve& kept = *held;
        if (r.chance(0.2)) { Curve& self = kept; kept = self; }
        double w = c->weight(), arc = c->curve_arc(); bool valid = c->is_valid();
        if (r.chance(0.7)) c.reset();
        ctx.check(kept.weight() == w && kept.curve_arc() == arc && kept.is_valid() == valid, "assigned", "an assigned curve has another weight, arc or validity");
        Pose2d ks = kept.start(), kg = kept.goal();
        ctx.check(ks.x == a.x && ks.y == a.y && ks.theta == a.theta && kg.x == b.x && kg.y == b.y && kg.theta == b.theta, "assigned", "an assigned curve reports another start or goal");
        std::vector<Pose2d> v3 = sample(ctx, &kept, s);
        ctx.check(v.size() == v3.size(), "assigned", "an assigned curve gives another number of samples");
        for (size_t i = 0; i < v.size(); ++i) ctx.check(v[i].x == v3[i].x && v[i].y == v3[i].y && v[i].theta == v3[i].theta, "assigned", "an assigned curve gives other samples");
        ctx.ev("curves assigned");
    }
}

WORKLOAD("C18", curve_cost, 150000, 4000000, 10,
         "reported weight against an independent closed-form solution of every enabled word, and against enabling the words one by one") {
    Rng& r = ctx.rng;
    Setup s = gen_setup(r);
    double side = std::ceil(r.real(10, 40) + 6 * s.r());
    std::unique_ptr<SimpleGridMap2d> m(new SimpleGridMap2d(4, 4, s.res));
    CurveGenerator gen;
    configure(gen, s, s.pats);
    bool map_cost = r.chance(0.1);
    GMap g((int)side, (int)side);
    if (map_cost) {
        m = lib_map(gen_map(r, (int)side, (int)side, 1), s.res);
        gen.set_use_map_cost(true);
        gen.set_min_cell_cost(10);
    }
    ctx.in << show(s) << (map_cost ? " map costs" : "");
    Pose2d a, b;
    int single = (int)r.range(0, 2);
    for (int k = 0; k < 3; ++k) {
        if (k && r.chance(0.35)) { vary(ctx, gen, *m, s); ctx.in << " | now " << show(s); }
        Pose2d a0 = a, b0 = b;
        request(r, s, side, a, b);
        if (k && r.chance(0.3)) a = a0;
        if (k && r.chance(0.3)) b = b0;
        ctx.in << " | " << a.x << "," << a.y << "," << a.theta << " -> " << b.x << "," << b.y << "," << b.theta;
        ctx.mixd(a.x); ctx.mixd(b.y);
        std::unique_ptr<Curve> c(gen.find_path(a, b, m.get(), true));
        if (c) { ctx.interesting(); ctx.ev("curves"); } else ctx.ev("no curve");
        if (c) ctx.check(c->curve_arc() < (s.set_arc ? s.max_arc : INF), "max-arc", str("total arc ", c->curve_arc(), " over the maximum ", s.max_arc));
        if (!map_cost) {
            Bound w = cheapest(s.words, a, b, s.r(), s.cost, s.set_arc ? s.max_arc : INF);
            ctx.check(!c || std::isfinite(w.lo), "impossible", "a curve although none of the words has a solution");
            ctx.check(c || !(w.hi < NOTFREE), "missing", str("no curve although one of weight ", w.hi, " exists"));
            if (c) {
                ctx.check(c->weight() >= w.lo * (1 - 2e-4) - 0.01, "too-cheap", str("weight ", c->weight(), ", the cheapest solution has ", w.lo));
                ctx.check(c->weight() <= w.hi * (1 + 2e-4) + 0.01, "not-cheapest", str("weight ", c->weight(), ", but there is a curve of weight ", w.hi));
                if (w.hi - w.lo < 1e-6 * w.hi) ctx.ev("unambiguous weights");
            }
        }
        if (k == single) {
            double best = INF;
            for (auto& p : s.pats) {
                CurveGenerator one;
                std::vector<std::string> l(1, p);
                configure(one, s, l);
                if (map_cost) { one.set_use_map_cost(true); one.set_min_cell_cost(10); }
                std::unique_ptr<Curve> o(one.find_path(a, b, m.get(), true));
                if (o) best = std::min(best, o->weight());
                ctx.ev("single words");
            }
            ctx.check(c ? c->weight() == best : !std::isfinite(best), "word-by-word", str("weight ", c ? c->weight() : -1, ", the cheapest single word has ", best));
        }
    }
}

// ---------------------------------------------------------------- C37
namespace {
// What the cells along a segment may sum up to: the number of cells of its raster (an arc's raster has an integer centre and
// radius, hence lies up to three cells away) times the smallest and largest value next to it.
struct CellSum { double lo, hi; };
struct CellMap {
    int w, h, minc;
    std::vector<uint8_t> v;
    std::vector<uint8_t> near;         // cells that a segment may count
    int value(int x, int y) const { return std::max(minc, (int)v[(size_t)y * w + x]); }
    bool in(int x, int y) const { return x >= 0 && y >= 0 && x < w && y < h; }
    void extremes(const std::vector<Pt>& pts, double by, double& lo, double& hi, bool& inside) {
        lo = INF; hi = 0; inside = true;
        int b = (int)std::ceil(by) + 1;
        std::vector<uint8_t> done((size_t)w * h, 0);
        for (auto& p : pts) {
            if (p.x < by || p.y < by || p.x > w - by || p.y > h - by) inside = false;
            for (int y = std::max(0, (int)p.y - b); y <= std::min(h - 1.0, p.y + b); ++y) for (int x = std::max(0, (int)p.x - b); x <= std::min(w - 1.0, p.x + b); ++x) {
                if (done[(size_t)y * w + x] || std::hypot(x + 0.5 - p.x, y + 0.5 - p.y) > by + 1) continue;
                done[(size_t)y * w + x] = 1; near[(size_t)y * w + x] = 1;
                lo = std::min(lo, (double)value(x, y)); hi = std::max(hi, (double)value(x, y));
            }
        }
        if (hi == 0) lo = 0;
    }
};
CellSum line_cells(CellMap& m, Pose2d a, Pose2d b) {
    auto edge = [](double v) { return std::fabs(v - std::round(v)) < 2e-3; };
    int n = std::max(std::abs((int)b.x - (int)a.x), std::abs((int)b.y - (int)a.y)) + 1;
    int slack = edge(a.x) || edge(a.y) || edge(b.x) || edge(b.y) ? 1 : 0;
    std::vector<Pt> pts;
    double L = std::hypot(b.x - a.x, b.y - a.y);
    int k = (int)std::ceil(L) + 1;
    for (int i = 0; i <= k; ++i) pts.push_back(Pt{a.x + (b.x - a.x) * i / k, a.y + (b.y - a.y) * i / k});
    double lo, hi; bool inside;
    m.extremes(pts, 1.5, lo, hi, inside);
    return CellSum{inside ? lo * std::max(1, n - slack) : 0.0, hi * (n + slack)};
}
CellSum arc_cells(CellMap& m, Pose2d start, bool left, double turn, double R) {
    double s = left ? R : -R, arc = std::fabs(turn);
    Pt o = {start.x - s * std::sin(start.theta), start.y + s * std::cos(start.theta)};
    double from = std::atan2(start.y - o.y, start.x - o.x);
    int Ri = (int)(R + 1e-6);
    double sum = 0;
    int k = std::max(8, (int)std::ceil(arc * R * 2));
    std::vector<Pt> pts;
    for (int i = 0; i <= k; ++i) {
        double a = from + turn * i / k;
        pts.push_back(Pt{o.x + R * std::cos(a), o.y + R * std::sin(a)});
        if (i < k) { double b = from + turn * (i + 0.5) / k; sum += Ri * std::max(std::fabs(std::cos(b)), std::fabs(std::sin(b))) * arc / k; }
    }
    double slack = 3 + std::floor(arc / (M_PI / 4)), full = 8 * (0.7072 * Ri + 1.5);
    double lo, hi; bool inside;
    bool any = arc < 1e-3 || arc > 2 * M_PI - 1e-3;     // nothing or all of the circle
    if (any) for (int i = 0; i < 64 + 8 * Ri; ++i) { double a = i * 2 * M_PI / (64 + 8 * Ri); pts.push_back(Pt{o.x + R * std::cos(a), o.y + R * std::sin(a)}); }
    m.extremes(pts, 3.5, lo, hi, inside);
    if (any) return CellSum{0, hi * full};
    double edge = std::fabs(R - std::round(R)) < 1e-5 ? 0.75 * arc + 1 : 0;      // radius next to an integer
    return CellSum{inside ? lo * std::max(0.0, sum - slack - edge) : 0.0, hi * (sum + slack + edge)};
}
// The segments of a densely sampled curve.
struct SegRun { bool line, back, left; size_t first, last; double turn; };
std::vector<SegRun> runs(const std::vector<Pose2d>& v, double R, int& tiny) {
    std::vector<SegRun> out;
    tiny = 0;
    for (size_t i = 0; i + 1 < v.size(); ++i) {
        double dx = v[i + 1].x - v[i].x, dy = v[i + 1].y - v[i].y, ch = std::hypot(dx, dy), dt = wrap(v[i + 1].theta - v[i].theta);
        if (ch < 5e-3) { if (ch > 1e-7) ++tiny; continue; }
        SegRun s;
        double mid = v[i].theta + dt / 2;
        s.back = dx * std::cos(mid) + dy * std::sin(mid) < 0;
        s.line = std::fabs(dt) < 0.5 * ch / R;
        s.left = (dt > 0) != s.back;
        s.first = i; s.last = i + 1; s.turn = dt;
        if (!out.empty() && out.back().line == s.line && out.back().back == s.back && (s.line || out.back().left == s.left)) { out.back().last = i + 1; out.back().turn += dt; }
        else out.push_back(s);
    }
    return out;
}
} // namespace

WORKLOAD("C37", map_costs, 30000, 800000, 10,
         "curves with map costs on uniform and patchy maps, all words, costs and minimum cell costs: weight against the number of cells along the segments times the values next to them, unaffected by dearer cells elsewhere, repeatable, "
         "and the cheapest of the words enabled one by one; non-trivial: a curve entirely in the map") {
    Rng& r = ctx.rng;
    Setup s = gen_setup(r);
    if (r.chance(0.7)) while (s.pats.size() > 3) { s.pats.pop_back(); s.words.pop_back(); }
    while (s.d() > 0.6) s.step *= 0.5;             // dense samples
    int side = (int)std::ceil(r.real(20, 50) + 6 * s.r());
    CellMap cm; cm.w = side; cm.h = (int)std::ceil(side * r.real(0.7, 1.2)); cm.minc = (int)r.picki({0, 1, 10, 10, 60, 255});
    cm.v.assign((size_t)cm.w * cm.h, 0);
    bool uniform = r.chance(0.5);
    int base = (int)r.range(0, 120);
    for (auto& c : cm.v) c = base;
    if (!uniform) for (int i = (int)r.range(1, 8); i > 0; --i) {
        int x0 = (int)r.range(0, cm.w - 1), y0 = (int)r.range(0, cm.h - 1), x1 = std::min(cm.w - 1, x0 + (int)r.range(0, side)), y1 = std::min(cm.h - 1, y0 + (int)r.range(0, side)), v = (int)r.range(0, 200);
        for (int y = y0; y <= y1; ++y) for (int x = x0; x <= x1; ++x) cm.v[(size_t)y * cm.w + x] = v;
    }
    SimpleGridMap2d m(cm.w, cm.h, s.res);
    m.setLowerThreshold(254); m.setUpperThreshold(255);
    auto fill = [&] { for (int y = 0; y < cm.h; ++y) for (int x = 0; x < cm.w; ++x) m.setValue(x, y, cm.v[(size_t)y * cm.w + x]); };
    fill();
    bool defmin = cm.minc == 10 && r.chance(0.5);
    auto setup = [&](CurveGenerator& g, const std::vector<std::string>& pats) {
        configure(g, s, pats);
        g.set_use_map_cost(true);
        if (!defmin) g.set_min_cell_cost(cm.minc);
    };
    CurveGenerator gen;
    setup(gen, s.pats);
    bool ignore = r.chance(0.6);
    ctx.in << show(s) << " map " << cm.w << "x" << cm.h << (uniform ? " uniform " : " patchy ") << base << " at least " << cm.minc << (ignore ? "" : " obstacles");
    Pose2d a, b;
    for (int k = 0; k < 3; ++k) {
        if (k && r.chance(0.3)) {
            vary(ctx, gen, m, s);
            while (s.d() > 0.6) s.step *= 0.5;
            gen.set_max_waypoint_distance(s.step);
            if (!defmin && r.chance(0.5)) { cm.minc = (int)r.picki({0, 1, 10, 60, 255}); gen.set_min_cell_cost(cm.minc); }
            ctx.in << " | now " << show(s) << " at least " << cm.minc;
        }
        Pose2d a0 = a, b0 = b;
        request(r, s, std::min(cm.w, cm.h), a, b);
        if (k && r.chance(0.3)) a = a0;
        if (k && r.chance(0.3)) b = b0;
        ctx.in << " | " << a.x << "," << a.y << "," << a.theta << " -> " << b.x << "," << b.y << "," << b.theta;
        ctx.mixd(a.x); ctx.mixd(b.y); ctx.mix(base * 256 + cm.minc);
        std::unique_ptr<Curve> c(gen.find_path(a, b, &m, ignore));
        // the cheapest of the words
        double best = INF; std::string best_word;
        for (auto& p : s.pats) {
            CurveGenerator one;
            setup(one, std::vector<std::string>(1, p));
            std::unique_ptr<Curve> o(one.find_path(a, b, &m, ignore));
            if (o && o->weight() < best) { best = o->weight(); best_word = p; }
        }
        ctx.check(c ? c->weight() == best : !std::isfinite(best), "word-by-word", str("weight ", c ? c->weight() : -1, ", the cheapest single word has ", best));
        if (!c) { ctx.ev("no curve"); continue; }
        ctx.check(c->weight() < NOTFREE && c->weight() >= 0, "weight-range", str("weight ", c->weight()));
        cm.near.assign(cm.v.size(), 0);
        double lo = 0, hi = 0, most = 0, unit_max = 0; bool inside = true;
        int tiny;
        std::vector<Pose2d> v = sample(ctx, c.get(), s);
        std::vector<SegRun> segs = runs(v, s.r(), tiny);
        for (auto& g : segs) {
            double unit = (g.back ? s.cost.bwd : s.cost.fwd) / s.res;
            CellSum n;
            if (g.line) { n = line_cells(cm, v[g.first], v[g.last]); unit *= s.cost.straight; }
            else { n = arc_cells(cm, v[g.first], g.left, g.turn, s.r()); unit *= s.cost.curve; }
            if (n.lo == 0) inside = false;
            lo += unit * n.lo; hi += unit * n.hi;
        }
        // segments without length still pass a cell or two, and join with their neighbors into one
        for (size_t i = 0; i < cm.v.size(); ++i) if (cm.near[i]) most = std::max(most, (double)std::max(cm.minc, (int)cm.v[i]));
        unit_max = std::max(s.cost.fwd, s.cost.bwd) * std::max(s.cost.straight, s.cost.curve) / s.res;
        double missing = (segs.size() < 4 ? 4 - segs.size() : 0) * 3 * most * unit_max;
        if (segs.size() == 3 && !tiny) missing = 0;
        for (auto& w : s.words) if (w.size() == 4 && segs.size() == 3) missing = 3 * most * unit_max;
        hi += missing; lo = std::max(0.0, lo - missing);
        ctx.check(c->weight() >= lo * (1 - 1e-4) - 0.01, "too-cheap", str("weight ", c->weight(), ", the cells along the curve cost at least ", lo));
        ctx.check(c->weight() <= hi * (1 + 1e-4) + 0.01, "too-dear", str("weight ", c->weight(), ", the cells along the curve cost at most ", hi));
        if (inside) { ctx.interesting(); ctx.ev("curves in the map"); }
        ctx.ev("curves");
        std::unique_ptr<Curve> again(gen.find_path(a, b, &m, ignore));
        ctx.check(again && again->weight() == c->weight(), "repeated", "the same request again has another weight");
        if (r.chance(0.3)) {                       // dearer cells elsewhere
            std::vector<uint8_t> keep = cm.v;
            int add = (int)r.range(1, 50);
            for (size_t i = 0; i < cm.v.size(); ++i) if (!cm.near[i]) cm.v[i] = std::min(250, cm.v[i] + add);
            fill();
            CurveGenerator one;
            setup(one, std::vector<std::string>(1, best_word));
            std::unique_ptr<Curve> o(one.find_path(a, b, &m, ignore));
            ctx.check(o && o->weight() == c->weight(), "elsewhere", str("weight ", o ? o->weight() : -1, " instead of ", c->weight(), " after raising cells away from the curve"));
            cm.v = keep; fill();
            ctx.ev("cells elsewhere raised");
        }
    }
}

WORKLOAD("C17", curve_obstacles, 60000, 1500000, 4,
         "curves on maps with obstacle blocks next to, on and away from the obstacle-free optimum, maps not larger than the curve, random maps") {
    Rng& r = ctx.rng;
    Setup s = gen_setup(r);
    while (s.d() > 0.9) s.step *= 0.5;             // dense samples
    while (s.r() > 20) { s.radius *= 0.5; }
    double R = s.r();
    int w = (int)std::ceil(r.real(20, 40) + r.real(2, 6) * R), h = (int)std::ceil(r.real(20, 40) + r.real(2, 6) * R);
    GMap g(w, h);
    CurveGenerator gen;
    configure(gen, s, s.pats);
    Pose2d a, b;
    request(r, s, std::min(w, h), a, b);
    // the obstacle-free optimum
    std::unique_ptr<SimpleGridMap2d> tiny(new SimpleGridMap2d(4, 4, s.res));
    std::unique_ptr<Curve> opt(gen.find_path(a, b, tiny.get(), true));
    ctx.in << show(s) << " " << a.x << "," << a.y << "," << a.theta << " -> " << b.x << "," << b.y << "," << b.theta;
    ctx.mixd(a.x); ctx.mixd(b.y); ctx.mix(w);
    if (!opt) { ctx.ev("no optimum"); return; }
    ctx.interesting();
    std::vector<Pose2d> ov = sample(ctx, opt.get(), s);
    std::vector<uint8_t> near((size_t)w * h, 0);       // cells within 4.5 cells of the optimum
    for (auto& p : ov) for (int y = (int)p.y - 6; y <= p.y + 6; ++y) for (int x = (int)p.x - 6; x <= p.x + 6; ++x)
        if (g.in(x, y) && std::hypot(x + 0.5 - p.x, y + 0.5 - p.y) < 5.5) near[(size_t)y * w + x] = 1;
    int kind = (int)r.range(0, 4);
    uint8_t what = r.chance(0.3) ? UNKNOWN : OCC;
    if (kind == 0) {                                   // everything but the surroundings of the optimum blocked
        for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) if (!near[(size_t)y * w + x]) g.at(x, y) = what;
    } else if (kind == 1) {                            // blocks anywhere else
        for (int i = 0; i < 8; ++i) {
            int x0 = (int)r.range(0, w - 1), y0 = (int)r.range(0, h - 1), n = (int)r.range(0, 12);
            for (int y = y0; y < std::min(h, y0 + n); ++y) for (int x = x0; x < std::min(w, x0 + n); ++x) if (!near[(size_t)y * w + x]) g.at(x, y) = what;
        }
    } else if (kind == 2) {                            // a block on the optimum
        const Pose2d& p = r.pick(ov);
        int n = (int)r.range(4, 7);
        rect(g, (int)p.x - n, (int)p.y - n, (int)p.x + n, (int)p.y + n, what);
    } else if (kind == 3) g = gen_map(r, w, h);
    std::unique_ptr<SimpleGridMap2d> m = lib_map(g, s.res);
    ctx.in << " kind " << kind << " map " << g.dump();
    std::unique_ptr<Curve> c(gen.find_path(a, b, m.get(), false));
    // clear optimum?
    bool clear = true, blocked = false;
    auto check_pose = [&](const Pose2d& p, bool& cl, bool& bl) {
        if (p.x < 5.5 || p.y < 5.5 || p.x > w - 5.5 || p.y > h - 5.5) cl = false;
        if (outside(g, p.x, p.y, 5)) { bl = true; return; }
        int cx = (int)std::floor(p.x), cy = (int)std::floor(p.y);
        bool all = g.in(cx, cy);
        for (int dy = -5; dy <= 5; ++dy) for (int dx = -5; dx <= 5; ++dx) {
            if (!g.in(cx + dx, cy + dy)) continue;
            bool f = g.free(cx + dx, cy + dy);
            if (!f && std::hypot(cx + dx + 0.5 - p.x, cy + dy + 0.5 - p.y) < 4.5) cl = false;
            if (f && std::max(std::abs(dx), std::abs(dy)) <= 3) all = false;
        }
        if (all) bl = true;
    };
    for (auto& p : ov) check_pose(p, clear, blocked);
    if (clear) {
        ctx.ev("clear optimum");
        ctx.check((bool)c, "missed", "no curve although the cheapest one is clear of obstacles");
        // another curve of the same weight would do as well
        ctx.check(c->weight() - opt->weight() < 1e-4 * opt->weight(), "costlier", str("weight ", c->weight(), " although the cheapest curve of weight ", opt->weight(), " is clear of obstacles"));
    }
    if (blocked) ctx.ev("blocked optimum");
    if (c) {
        // a word's cheaper symmetric variant may exceed the maximum arc, its costlier one may not
        ctx.check(s.set_arc || c->weight() >= opt->weight() * (1 - 1e-6), "cheaper", "obstacles make the curve cheaper");
        std::vector<Pose2d> v = sample(ctx, c.get(), s);
        bool cl = true;
        for (size_t i = 0; i < v.size(); ++i) {
            bool bl = false;
            check_pose(v[i], cl, bl);
            ctx.check(!bl, "collision", str("sample ", i, " at ", v[i].x, ",", v[i].y, outside(g, v[i].x, v[i].y, 5) ? " lies outside of the map" : " lies in an obstacle"));
            ctx.ev("samples checked");
        }
        ctx.ev("curves among obstacles");
    } else ctx.ev("no free curve");
    // ignoring obstacles: the map does not matter
    std::unique_ptr<Curve> ig(gen.find_path(a, b, m.get(), true));
    ctx.check(ig && ig->weight() == opt->weight(), "ignored", "the map changes a curve that ignores obstacles");
    std::vector<Pose2d> iv = sample(ctx, ig.get(), s);
    ctx.check(iv.size() == ov.size(), "ignored", "the map changes a curve that ignores obstacles");
    for (size_t i = 0; i < iv.size(); ++i) ctx.check(iv[i].x == ov[i].x && iv[i].y == ov[i].y, "ignored", "the map changes a curve that ignores obstacles");
}

WORKLOAD("C17", curve_chase, 15000, 400000, 4,
         "obstacles put one after the other on the curves found, mostly with words of turns only: every next curve is free, none gets cheaper, and one is found while the curve of any word is clear") {
    Rng& r = ctx.rng;
    Setup s = gen_setup(r);
    while (s.d() > 0.9) s.step *= 0.5;
    if (s.r() < 8) s.radius = s.res * r.real(8, 20);   // arcs long enough to be blocked on their own
    while (s.r() > 20) s.radius *= 0.5;
    if (r.chance(0.7)) {                               // words of turns only
        s.pats.clear(); s.words.clear();
        for (int n = (int)r.pickd({1, 1, 2, 4}); n > 0; --n) s.pats.push_back(PATTERNS[r.range(32, NPAT - 1)]);
        for (auto& p : s.pats) { Word w; read_word(p, w); s.words.push_back(w); }
    } else if (s.pats.size() > 6) { s.pats.resize(6); s.words.resize(6); }
    double R = s.r();
    int side = (int)std::ceil(r.real(20, 40) + r.real(4, 6) * R);
    GMap g(side, side);
    CurveGenerator gen;
    configure(gen, s, s.pats);
    Pose2d a, b;
    if (r.chance(0.6)) {
        double d = r.real(2.5, 5 * R), dir = r.real(-M_PI, M_PI);
        a = Pose2d(side / 2.0 - d / 2 * std::cos(dir), side / 2.0 - d / 2 * std::sin(dir), r.real(-M_PI, M_PI));
        b = Pose2d(a.x + d * std::cos(dir), a.y + d * std::sin(dir), r.real(-M_PI, M_PI));
    } else request(r, s, side, a, b);
    ctx.in << show(s) << " map " << side << " " << a.x << "," << a.y << "," << a.theta << " -> " << b.x << "," << b.y << "," << b.theta;
    ctx.mixd(a.x); ctx.mixd(b.y); ctx.mix(side);
    std::unique_ptr<SimpleGridMap2d> m = lib_map(g, s.res);
    // the words one by one, without obstacles
    struct One { double w; std::vector<Pose2d> v; };
    std::vector<One> ones;
    for (auto& p : s.pats) {
        CurveGenerator one;
        configure(one, s, std::vector<std::string>(1, p));
        std::unique_ptr<Curve> c(one.find_path(a, b, m.get(), true));
        if (c) { One o; o.w = c->weight(); o.v = sample(ctx, c.get(), s); ones.push_back(o); }
    }
    if (ones.empty()) { ctx.ev("no curve"); return; }
    auto is_clear = [&](const One& o) {
        for (auto& p : o.v) {
            if (p.x < 5.5 || p.y < 5.5 || p.x > side - 5.5 || p.y > side - 5.5) return false;
            int cx = (int)std::floor(p.x), cy = (int)std::floor(p.y);
            for (int dy = -5; dy <= 5; ++dy) for (int dx = -5; dx <= 5; ++dx)
                if (g.in(cx + dx, cy + dy) && !g.free(cx + dx, cy + dy) && std::hypot(cx + dx + 0.5 - p.x, cy + dy + 0.5 - p.y) < 4.5) return false;
        }
        return true;
    };
    double last = 0;
    for (int k = 0; k < 5; ++k) {
        std::unique_ptr<Curve> c(gen.find_path(a, b, m.get(), false));
        for (auto& o : ones) if (is_clear(o)) {
            ctx.ev("clear words");
            ctx.check((bool)c, "missed-word", "no curve although the one of a word is clear of obstacles");
            ctx.check(c->weight() <= o.w * (1 + 1e-4), "costlier-word", str("weight ", c->weight(), " although a word's curve of weight ", o.w, " is clear of obstacles"));
        }
        if (!c) { ctx.ev("no curve left"); return; }
        ctx.interesting();
        ctx.ev(k ? "curves around blocks" : "first curves");
        ctx.check(s.set_arc || c->weight() >= last * (1 - 1e-6), "cheaper-blocked", str("weight ", c->weight(), " with more obstacles, ", last, " before"));
        last = c->weight();
        std::vector<Pose2d> v = sample(ctx, c.get(), s);
        for (size_t i = 0; i < v.size(); ++i) {
            int cx = (int)std::floor(v[i].x), cy = (int)std::floor(v[i].y);
            bool bl = outside(g, v[i].x, v[i].y, 5);
            if (!bl && g.in(cx, cy)) {
                bl = true;
                for (int dy = -3; dy <= 3 && bl; ++dy) for (int dx = -3; dx <= 3; ++dx) if (g.in(cx + dx, cy + dy) && g.free(cx + dx, cy + dy)) { bl = false; break; }
            }
            ctx.check(!bl, "collision", str("round ", k, ": sample ", i, " of ", v.size(), " at ", v[i].x, ",", v[i].y, " lies in an obstacle or outside of the map"));
        }
        // a block on it, away from its ends
        for (int tries = 0; tries < 10; ++tries) {
            const Pose2d& p = r.pick(v);
            int n = (int)r.range(4, 6);
            if (std::max(std::fabs(p.x - a.x), std::fabs(p.y - a.y)) < n + 2 || std::max(std::fabs(p.x - b.x), std::fabs(p.y - b.y)) < n + 2) continue;
            uint8_t what = r.chance(0.3) ? UNKNOWN : OCC;
            rect(g, (int)p.x - n, (int)p.y - n, (int)p.x + n, (int)p.y + n, what);
            ctx.in << " block " << (int)p.x << "," << (int)p.y << "+-" << n;
            m = lib_map(g, s.res);
            ctx.ev("blocks");
            break;
        }
    }
}

WORKLOAD("C19", pattern_grammar, 300000, 6000000, 10,
         "patterns generated from the grammar and mutated; acceptance against a reference parser, meaning by the weight of the curves found") {
    Rng& r = ctx.rng;
    auto gen_pat = [&]() {
        std::string s;
        switch (r.range(0, 3)) {
        case 0: s = PATTERNS[r.range(0, NPAT - 1)]; break;
        case 1: {
            int n = (int)r.range(1, 5);
            for (int i = 0; i < n; ++i) {
                while (r.chance(0.3)) s += '|';
                s += "LRS"[r.range(0, 2)];
                while (r.chance(0.25)) { s += '('; int k = (int)r.range(0, 2); for (int j = 0; j < k; ++j) s += "bp"[r.range(0, 1)]; s += ')'; }
            }
            break;
        }
        case 2: { int n = (int)r.range(0, 8); for (int i = 0; i < n; ++i) s += "LRS|()bpLRS"[r.range(0, 10)]; break; }
        default: {
            s = PATTERNS[r.range(0, NPAT - 1)];
            for (int k = (int)r.range(1, 3); k > 0; --k) {
                char c = r.chance(0.8) ? "LRS|()bpPlr s\n"[r.range(0, 13)] : (char)r.range(-128, 127);
                size_t at = (size_t)r.range(0, (long)s.size());
                if (r.chance(0.5) || s.empty()) s.insert(at, 1, c);
                else if (at < s.size()) { if (r.chance(0.5)) s.erase(at, 1); else s[at] = c; }
            }
        }
        }
        return s;
    };
    Setup s = gen_setup(r);
    s.pats.clear(); s.words.clear();
    CurveGenerator gen;
    bool any = false;
    int n = (int)r.range(1, 4);
    if (r.chance(0.3)) { s.pats.push_back("LSL"); }
    for (int i = 0; i < n; ++i) s.pats.push_back(gen_pat());
    std::vector<Word> words;
    for (auto& p : s.pats) {
        Word w;
        bool want = read_word(p, w);
        std::ostringstream out;
        bool got = gen.parse(p, out);
        ctx.mix(std::hash<std::string>()(p));
        ctx.in << " '" << p << "'";
        ctx.check(got == want, want ? "rejected" : "accepted", str("pattern '", p, "' is ", want ? "well-formed" : "ill-formed", " but parse returned ", got));
        ctx.check(out.str().empty() == want, "message", str("pattern '", p, "': ", want ? "an error message although it is well-formed" : "no error message"));
        if (want) { words.push_back(w); any = true; }
        ctx.ev(want ? "well-formed" : "ill-formed");
    }
    ctx.interesting();
    if (!any) return;
    std::vector<std::string> none;
    configure(gen, s, none);
    double side = std::ceil(40 + 6 * s.r());
    std::unique_ptr<SimpleGridMap2d> m(new SimpleGridMap2d(4, 4, s.res));
    for (int k = 0; k < 2; ++k) {
        Pose2d a, b;
        request(r, s, side, a, b);
        ctx.in << " | " << a.x << "," << a.y << "," << a.theta << " -> " << b.x << "," << b.y << "," << b.theta;
        std::unique_ptr<Curve> c(gen.find_path(a, b, m.get(), true));
        Bound w = cheapest(words, a, b, s.r(), s.cost, s.set_arc ? s.max_arc : INF);
        ctx.check(!c || std::isfinite(w.lo), "meaning", "a curve although none of the accepted words has a solution");
        ctx.check(c || !(w.hi < NOTFREE), "meaning", str("no curve although an accepted word has one of weight ", w.hi));
        if (c) {
            ctx.ev("curves of parsed words");
            ctx.check(c->weight() >= w.lo * (1 - 2e-4) - 0.01 && c->weight() <= w.hi * (1 + 2e-4) + 0.01, "meaning",
                      str("weight ", c->weight(), " instead of ", w.lo, "..", w.hi, " of the accepted words"));
        }
    }
}
