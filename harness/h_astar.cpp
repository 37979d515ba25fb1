// Legacy grid A* and its open list: C01-C04.
#include "maps.hpp"
#include <cslibs_path_planning/a_star/AStar.h>
#include <cslibs_path_planning/common/SimpleGridMap2d.h>
#include <memory>

using namespace vf;
using namespace lib_path;

namespace {

std::unique_ptr<SimpleGridMap2d> make_map(Rng& r, const GMap& g) {
    std::unique_ptr<SimpleGridMap2d> m(new SimpleGridMap2d(g.w, g.h, r.pickd({0.05, 0.1, 1.0, 2.5})));
    int lo = 50, up = 200;
    if (r.chance(0.3)) { lo = (int)r.range(0, 120); up = (int)r.range(lo + 2, 255); m->setLowerThreshold(lo); m->setUpperThreshold(up); }
    for (int y = 0; y < g.h; ++y) for (int x = 0; x < g.w; ++x) m->setValue(x, y, value_of(r, g.at(x, y), lo, up));
    return m;
}

struct Ref { bool reach; double best; };

Ref reference(const GMap& g, waypoint_t s, waypoint_t t) {
    Ref o; o.reach = false; o.best = std::numeric_limits<double>::infinity();
    if (!g.in(s.x, s.y) || !g.in(t.x, t.y)) return o;
    std::vector<double> d = dijkstra(g, t.x, t.y, 8, [&](int x, int y) { return g.free(x, y); });
    o.best = d[(size_t)s.y * g.w + s.x];
    o.reach = std::isfinite(o.best);
    return o;
}

double path_len(const path_t& p) {
    double l = 0;
    for (size_t i = 1; i < p.size(); ++i) l += (p[i].x != p[i - 1].x && p[i].y != p[i - 1].y) ? std::sqrt(2.0) : 1.0;
    return l;
}

void validate(Ctx& ctx, const GMap& g, waypoint_t s, waypoint_t t, bool ok, const path_t& p, const Ref& ref) {
    ctx.check(ok == ref.reach, ok ? "success-unreachable" : "failure-reachable",
              str("planPath returned ", ok, " but reachability is ", ref.reach));
    if (!ok) {
        ctx.check(p.empty(), "path-after-failure", "path not empty after a failed search");
        return;
    }
    ctx.check(!p.empty(), "empty-path", "success with an empty path");
    ctx.check(p.front().x == s.x && p.front().y == s.y, "path-start", "path does not begin at the start");
    ctx.check(p.back().x == t.x && p.back().y == t.y, "path-goal", "path does not end at the goal");
    std::set<std::pair<int, int> > seen;
    for (size_t i = 0; i < p.size(); ++i) {
        ctx.check(g.in(p[i].x, p[i].y), "path-outside", str("path leaves the map at ", p[i].x, ",", p[i].y));
        ctx.check(seen.insert(std::make_pair(p[i].x, p[i].y)).second, "path-repeat", "path visits a cell twice");
        if (i + 1 < p.size()) {
            int dx = std::abs(p[i].x - p[i + 1].x), dy = std::abs(p[i].y - p[i + 1].y);
            ctx.check(dx <= 1 && dy <= 1 && dx + dy > 0, "path-step", str("step of ", dx, ",", dy, " at ", i));
            ctx.check(g.free(p[i].x, p[i].y), "path-blocked", str("path crosses a non-free cell ", p[i].x, ",", p[i].y));
        }
    }
}

void describe(Ctx& ctx, const GMap& g, waypoint_t s, waypoint_t t) {
    ctx.in << "map " << g.dump() << " start " << s.x << "," << s.y << " goal " << t.x << "," << t.y;
    ctx.mix(g.hash()); ctx.mix(s.x * 1000 + s.y); ctx.mix(t.x * 1000 + t.y);
}

waypoint_t gen_wp(Rng& r, const GMap& g, bool outside) {
    waypoint_t w;
    if (outside) {
        switch (r.range(0, 5)) {
        case 0: w.x = -1; w.y = (int)r.range(0, g.h - 1); break;
        case 1: w.x = g.w; w.y = (int)r.range(0, g.h - 1); break;
        case 2: w.y = -1; w.x = (int)r.range(0, g.w - 1); break;
        case 3: w.y = g.h; w.x = (int)r.range(0, g.w - 1); break;
        case 4: w.x = (int)r.range(-100000, -1); w.y = (int)r.range(-5, 100000); break;
        default: w.x = (int)r.range(g.w, 1000000); w.y = (int)r.range(-5, 5); break;
        }
        return w;
    }
    std::pair<int, int> c = pick_cell(r, g, r.chance(0.9));
    if (r.chance(0.1)) { c.first = r.chance(0.5) ? 0 : g.w - 1; c.second = r.chance(0.5) ? 0 : g.h - 1; }
    w.x = c.first; w.y = c.second;
    return w;
}

} // namespace

WORKLOAD("C01", astar_paths, 40000, 1200000, 150,
         "one search on a random map (empty, noise, walls with gaps, mazes, blocks, traps, diagonal walls, corridors; 1x1 up to 60x60 cells) "
         "with random, equal, blocked, corner or out-of-map start/goal; non-trivial: both in the map and different") {
    Rng& r = ctx.rng;
    std::pair<int, int> sz = gen_size(r, ctx.idx % 400 == 7 ? 400 : ctx.idx % 16 == 0 ? 60 : 24);
    GMap g = gen_map(r, sz.first, sz.second);
    bool os = r.chance(0.04), ot = r.chance(0.04);
    waypoint_t s = gen_wp(r, g, os), t = r.chance(0.03) && !os ? s : gen_wp(r, g, ot);
    describe(ctx, g, s, t);
    std::unique_ptr<SimpleGridMap2d> m = make_map(r, g);
    AStar a(m.get());
    bool ok = a.planPath(s, t);
    path_t p = *a.getLastPath();
    Ref ref = reference(g, s, t);
    if (!g.in(s.x, s.y) || !g.in(t.x, t.y)) { ctx.ev("requests_outside_map"); }
    else { ctx.ev(ok ? "paths_found" : "no_path"); ctx.ev("path_cells", (long)p.size()); if (s.x != t.x || s.y != t.y) ctx.interesting(); }
    validate(ctx, g, s, t, ok, p, ref);
}

WORKLOAD("C02", astar_length, 90000, 1000000, 0,
         "one search on a random map, half of them obstacle-free, the others structured to offer detours of nearly equal length; "
         "non-trivial: path of at least 5 cells") {
    Rng& r = ctx.rng;
    std::pair<int, int> sz = gen_size(r, ctx.idx % 400 == 7 ? 400 : ctx.idx % 8 == 0 ? 70 : 30);
    GMap g = gen_map(r, sz.first, sz.second, ctx.idx % 4 == 0 ? 0 : -1);
    waypoint_t s = gen_wp(r, g, false), t = gen_wp(r, g, false);
    describe(ctx, g, s, t);
    std::unique_ptr<SimpleGridMap2d> m = make_map(r, g);
    AStar a(m.get());
    if (!a.planPath(s, t)) return;
    path_t p = *a.getLastPath();
    Ref ref = reference(g, s, t);
    double len = path_len(p);
    if (p.size() >= 5) { ctx.interesting(); ctx.ev("paths_compared"); }
    if (len > ref.best + 1e-6) ctx.ev("suboptimal_paths");
    if (getenv("VF_STAT") && len > ref.best + 1e-6) fprintf(stderr, "EXC %g %g %d\n", len - ref.best, ref.best, ctx.idx % 4 == 0);
    ctx.check(len >= ref.best - 1e-3, "too-short", str("path length ", len, " below the optimum ", ref.best));
    bool empty = true;
    for (uint8_t v : g.c) if (v != FREE) empty = false;
    double bound = empty ? 2.0 : 2.0 + ref.best / 6;
    ctx.check(len <= ref.best + bound, "too-long", str("path length ", len, ", optimum ", ref.best));
}

namespace {
void wide_case(Ctx& ctx) {
    Rng& r = ctx.rng;
    GMap g = wide_map(r);
    bool side = r.chance(0.5);
    std::pair<int, int> a = wide_cell(r, g, side), b = wide_cell(r, g, !side);
    waypoint_t s, t; s.x = a.first; s.y = a.second; t.x = b.first; t.y = b.second;
    describe(ctx, g, s, t);
    std::unique_ptr<SimpleGridMap2d> m = make_map(r, g);
    AStar p(m.get());
    bool ok = p.planPath(s, t);
    Ref ref = reference(g, s, t);
    path_t path = *p.getLastPath();
    validate(ctx, g, s, t, ok, path, ref);
    if (ok) {
        double len = path_len(path);
        ctx.check(len >= ref.best - 1e-6 * ref.best, "too-short", str("path length ", len, " below the optimum ", ref.best));
        ctx.check(len <= ref.best * 7 / 6 + 2, "too-long", str("path length ", len, ", optimum ", ref.best));
        ctx.ev("wide_paths"); ctx.ev("path_cells", (long)path.size());
        ctx.interesting();
    }
}
}
WORKLOAD("C01", wide_paths, 16, 300, 0, "one search through a corridor of 33 000 to 70 000 cells, with and without walls") { wide_case(ctx); }
WORKLOAD("C01", vast_maps, 24, 600, 0, "searches on maps of 500 to 1 100 rows and columns, open or with sparse noise, also with a start that is walled in or in boxes with one gap; non-trivial: all") {
    Rng& r = ctx.rng;
    int w = (int)r.range(500, 1100), h = (int)r.range(500, 1100);
    GMap g(w, h);
    if (r.chance(0.6)) { double p = r.real(0.01, 0.2); for (auto& v : g.c) if (r.chance(p)) v = r.chance(0.8) ? OCC : UNKNOWN; }
    waypoint_t s, t; s.x = (int)r.range(2, w - 3); s.y = (int)r.range(2, h - 3); t.x = (int)r.range(0, w - 1); t.y = (int)r.range(0, h - 1);
    g.at(s.x, s.y) = FREE;
    bool closed = ctx.idx % 6 == 1;
    if (ctx.idx % 2 == 0) for (int R : {(int)r.range(3, 30), (int)r.range(40, 250)}) {   // boxes with one gap: most of the map is looked at before the gap is found
        std::vector<std::pair<int, int> > ring;
        for (int i = -R; i <= R; ++i) for (int j = -R; j <= R; j += (std::abs(i) == R ? 1 : 2 * R)) if (g.in(s.x + i, s.y + j)) ring.push_back(std::make_pair(s.x + i, s.y + j));
        if (ring.empty()) continue;
        std::pair<int, int> gap = ring[r.next() % ring.size()];
        for (auto& c : ring) g.at(c.first, c.second) = OCC;
        g.at(gap.first, gap.second) = FREE;
        for (int i = -1; i <= 1; ++i) for (int j = -1; j <= 1; ++j) {   // nothing blocks the gap itself
            std::pair<int, int> c(gap.first + i, gap.second + j);
            if (g.in(c.first, c.second) && std::max(std::abs(c.first - s.x), std::abs(c.second - s.y)) != R) g.at(c.first, c.second) = FREE;
        }
        ctx.ev("boxes");
    }
    for (int i = -2; i <= 2; ++i) for (int j = -2; j <= 2; ++j) if (std::max(std::abs(i), std::abs(j)) == 2) g.at(s.x + i, s.y + j) = closed || (i != 0) ? OCC : FREE;
    describe(ctx, g, s, t);
    std::unique_ptr<SimpleGridMap2d> m = make_map(r, g);
    AStar p(m.get());
    bool ok = p.planPath(s, t);
    validate(ctx, g, s, t, ok, *p.getLastPath(), reference(g, s, t));
    ctx.ev(ok ? "vast paths" : "vast failures");
    ctx.interesting();
}
WORKLOAD("C02", wide_lengths, 16, 300, 0, "the same, with the length compared") { wide_case(ctx); }

WORKLOAD("C03", long_reuse, 40, 600, 0,
         "one planner used for several searches of a small map with about 255 or about 65 535 trivial searches (start equal to goal) in between; non-trivial: a path found afterwards") {
    Rng& r = ctx.rng;
    bool huge = ctx.idx % 20 == 3;
    std::pair<int, int> sz = gen_size(r, 8);
    GMap g = gen_map(r, sz.first, sz.second);
    std::unique_ptr<SimpleGridMap2d> m = make_map(r, g);
    AStar a(m.get());
    waypoint_t c = gen_wp(r, g, false);
    ctx.in << "map " << g.dump() << " trivial searches at " << c.x << "," << c.y; ctx.mix(g.hash()); ctx.mix(c.x * 100 + c.y);
    for (int round = 0; round < (huge ? 4 : 12); ++round) {
        long between = (huge ? 65534 : r.pickd({254, 126, 510, 1022})) + round % 4 - (round % 4 == 3 ? 4 : 0);
        for (int k = 0; k < 2; ++k) {
            waypoint_t s = gen_wp(r, g, false), t = gen_wp(r, g, false);
            ctx.in << "; plan " << s.x << "," << s.y << "->" << t.x << "," << t.y;
            bool ok = a.planPath(s, t);
            path_t p = *a.getLastPath();
            validate(ctx, g, s, t, ok, p, reference(g, s, t));
            AStar f(m.get());
            ctx.check(f.planPath(s, t) == ok, "reuse-success", "reused and fresh planner disagree");
            ctx.check(std::fabs(path_len(*f.getLastPath()) - path_len(p)) < 1e-9, "reuse-length", "reused and fresh planner find paths of different lengths");
            ctx.ev("searches_compared");
            if (ok && p.size() > 2) ctx.interesting();
            if (k == 0) {
                ctx.in << "; " << between << " trivial searches";
                for (long i = 0; i < between; ++i) ctx.check(a.planPath(c, c) && a.getLastPath()->size() == 1, "trivial", "a search from a cell to itself fails");
                ctx.ev("trivial_searches", between);
            }
        }
    }
}

WORKLOAD("C03", astar_reuse, 20000, 120000, 30,
         "history of 2-12 searches on one planner, interleaved with in-place cell edits, threshold changes, resizing of the map object and map replacements of equal or different size (also with the old map deleted); "
         "each search is repeated on a fresh planner; non-trivial: at least two searches succeeded and the map changed") {
    Rng& r = ctx.rng;
    int n = (int)r.range(2, 12);
    GMap g;
    std::vector<std::unique_ptr<SimpleGridMap2d> > keep;
    std::unique_ptr<AStar> a;
    int good = 0, changes = 0;
    for (int i = 0; i < n; ++i) {
        if (i == 0 || r.chance(0.4)) {
            std::pair<int, int> sz = gen_size(r, ctx.idx % 50 == 7 ? 140 : 20);
            if (i > 0 && r.chance(0.4)) sz = std::make_pair(g.w, g.h);
            else if (i > 0 && r.chance(0.2)) sz = std::make_pair(g.h, g.w); // same cell count, other shape
            g = gen_map(r, sz.first, sz.second);
            int how = i == 0 ? 0 : (int)r.range(0, 3);
            if (how <= 1) {
                if (how == 1) { keep.pop_back(); ctx.in << "; delete"; ctx.ev("maps_deleted"); }
                keep.push_back(make_map(r, g));
                ctx.in << (i ? "; newmap " : "map ") << g.dump();
                if (!a) a.reset(new AStar(keep.back().get()));
                else { a->setNewMap(keep.back().get()); ctx.ev("map_replacements"); ++changes; }
            } else {                            // the map object gets other data, and maybe another size
                SimpleGridMap2d* m = keep.back().get();
                std::vector<uint8_t> d((size_t)g.w * g.h);
                for (int y = 0; y < g.h; ++y) for (int x = 0; x < g.w; ++x) d[(size_t)y * g.w + x] = value_of(r, g.at(x, y), 60, 180);
                m->setLowerThreshold(60); m->setUpperThreshold(180);
                m->set(d, g.w, g.h);
                ctx.in << "; resized in place" << (how == 2 ? " and set again " : " ") << g.dump();
                if (how == 2) a->setNewMap(m);
                ctx.ev("maps_resized_in_place"); ++changes;
            }
            ctx.mix(g.hash());
        } else if (r.chance(0.15)) {            // other thresholds: what is free changes with no cell touched
            SimpleGridMap2d* m = keep.back().get();
            int lo = (int)r.range(0, 253), up = (int)r.range(lo + 2, 255);
            m->setLowerThreshold(lo); m->setUpperThreshold(up);
            for (int y = 0; y < g.h; ++y) for (int x = 0; x < g.w; ++x) { int v = m->getValue(x, y); g.at(x, y) = v <= lo ? FREE : v >= up ? OCC : UNKNOWN; }
            ctx.in << "; thresholds " << lo << "," << up << " " << g.dump();
            ctx.ev("threshold_changes"); ++changes;
        } else if (r.chance(0.4)) {
            SimpleGridMap2d* m = keep.back().get();
            int k = (int)r.range(1, 8);
            for (int j = 0; j < k; ++j) {
                int x = (int)r.range(0, g.w - 1), y = (int)r.range(0, g.h - 1);
                g.at(x, y) = r.chance(0.5) ? OCC : FREE;
                m->setValue(x, y, g.at(x, y) == OCC ? 255 : 0);
                ctx.in << "; set " << x << "," << y << "=" << (int)g.at(x, y);
            }
            ctx.ev("map_edits", k); ++changes;
        }
        bool out = r.chance(0.06);
        waypoint_t s = gen_wp(r, g, out), t = r.chance(0.1) ? s : gen_wp(r, g, false);
        ctx.in << "; plan " << s.x << "," << s.y << "->" << t.x << "," << t.y;
        bool ok = a->planPath(s, t);
        path_t p = *a->getLastPath();
        AStar f(keep.back().get());
        bool fok = f.planPath(s, t);
        path_t fp = *f.getLastPath();
        ctx.ev("searches_compared");
        ctx.check(ok == fok, "reuse-success", str("search ", i, ": reused planner ", ok, ", fresh planner ", fok));
        ctx.check(std::fabs(path_len(p) - path_len(fp)) < 1e-9, "reuse-length", str("search ", i, ": lengths ", path_len(p), " vs ", path_len(fp)));
        ctx.check(p.empty() == fp.empty(), "reuse-empty", str("search ", i, ": reported path empty ", p.empty(), " vs ", fp.empty()));
        validate(ctx, g, s, t, ok, p, reference(g, s, t));
        good += ok;
    }
    if (good >= 2 && changes) ctx.interesting();
}

WORKLOAD("C04", long_lists, 60, 2000, 0,
         "one open list over 60x60 to 300x300 cells that holds thousands of cells: phases of offering, re-offering and extracting, every extraction against the sequential model; non-trivial: more than 1 000 cells queued at a time") {
    Rng& r = ctx.rng;
    int w = (int)r.range(60, ctx.idx % 6 == 1 ? 300 : 120), h = (int)r.range(60, ctx.idx % 6 == 1 ? 300 : 120);
    OpenList l(w, h);
    struct M { double d, p; bool queued; };
    std::vector<M> model; std::vector<char> known;
    std::multiset<long> values;
    double scale = r.pickd({40, 400, 50000});
    auto tot = [](const M& m) { return (long)(double)((float)m.d + (float)m.p); };
    ctx.in << w << "x" << h << " scale " << scale; ctx.mix(w * 1000 + h); ctx.mixd(scale);
    size_t most = 0;
    for (int reset = 0; reset < 2; ++reset) {
        if (reset) l.prepareNewSearch();
        model.assign((size_t)w * h, M()); known.assign((size_t)w * h, 0); values.clear();
        int phases = (int)r.range(2, 5);
        for (int ph = 0; ph <= phases; ++ph) {
            long adds = ph == phases ? 0 : r.range(200, (long)w * h / 2), pops = ph == phases ? (long)w * h : r.range(0, adds);
            for (long i = 0; i < adds; ++i) {
                waypoint_t c; c.x = (int)r.range(0, w - 1); c.y = (int)r.range(0, h - 1);
                size_t k = (size_t)c.y * w + c.x;
                double d = std::floor(r.real(0, scale) * 8) / 8, pr = known[k] ? model[k].p : std::floor(r.real(0, scale) * 8) / 8;
                // a second offer within few equal costs is looked for linearly by the list: keep these rare
                if (known[k] && scale < 100 && !r.chance(0.2)) continue;
                l.addNode(c, d, pr, 0);
                M& m = model[k];
                if (!known[k]) { known[k] = 1; m.d = d; m.p = pr; m.queued = true; values.insert(tot(m)); }
                else if (m.queued && d + pr <= (double)tot(m)) { values.erase(values.find(tot(m))); m.d = d; values.insert(tot(m)); ctx.ev("reoffers_applied"); }
                else ctx.ev("reoffers_rejected");
            }
            most = std::max(most, values.size());
            for (long i = 0; i < pops; ++i) {
                Node* f = l.getFirstNode();
                ctx.check((f != 0) == !values.empty(), "pop-emptiness", str("extraction ", f ? "yielded a cell from an empty list" : "yielded nothing although cells are queued: ", values.size()));
                if (!f) break;
                size_t k = (size_t)f->getPosition().y * w + f->getPosition().x;
                ctx.check(known[k] && model[k].queued, "pop-not-queued", str("extracted cell ", f->getPosition().x, ",", f->getPosition().y, " is not queued"));
                ctx.check(tot(model[k]) == *values.begin(), "pop-order", str("extracted cost ", tot(model[k]), ", minimal queued cost ", *values.begin()));
                ctx.check(f->getDistance() == model[k].d, "pop-distance", str("extracted node distance ", f->getDistance(), ", model ", model[k].d));
                values.erase(values.begin()); model[k].queued = false;
                ctx.ev("pops");
            }
        }
        ctx.check(values.empty(), "left", str(values.size(), " cells left in the model"));
    }
    if (most > 1000) ctx.interesting();
}

WORKLOAD("C04", open_list, 100000, 600000, 100,
         "history of 5-300 add/extract/reset/search-size operations on one open list (1x1 to 20x20 cells, few distinct cells and costs so that "
         "re-offers and ties are common); non-trivial: at least one re-offer was applied and one rejected") {
    Rng& r = ctx.rng;
    int side = r.chance(0.03) ? 300 : 20, w = (int)r.range(1, side), h = (int)r.range(1, side);
    OpenList l(w, h);
    struct M { double d, p; Node* par; bool queued, visited; };
    std::map<std::pair<int, int>, M> model; // cells offered since the reset
    std::map<Node*, std::pair<int, int> > popped;
    std::vector<Node*> parents(1, (Node*)0);
    int n = (int)r.range(5, r.chance(0.1) ? 300 : 60), hot = (int)r.range(1, 6);
    double scale = r.pickd({1.5, 5, 40, 400, 50000});
    long applied = 0, rejected = 0;
    auto tot = [](const M& m) { return (long)(double)((float)m.d + (float)m.p); };
    ctx.in << w << "x" << h << ":";
    for (int i = 0; i < n; ++i) {
        double u = r.unit();
        if (u < 0.62) {
            waypoint_t c;
            if (r.chance(0.7)) { c.x = (int)(r.range(0, hot) * 3) % w; c.y = (int)(r.range(0, 2) * 5) % h; }
            else { c.x = (int)r.range(0, w - 1); c.y = (int)r.range(0, h - 1); }
            // multiples of 1/8 are exact in float: no dependence on the stored precision
            double d = std::floor(r.real(0, scale) * 8) / 8;
            std::pair<int, int> key(c.x, c.y);
            std::map<std::pair<int, int>, M>::iterator it = model.find(key);
            double pr = it == model.end() || r.chance(0.0) ? std::floor(r.real(0, scale) * 8) / 8 : it->second.p;
            Node* par = parents[r.next() % parents.size()];
            ctx.in << " add(" << c.x << "," << c.y << "," << d << "," << pr << ")";
            l.addNode(c, d, pr, par);
            if (it == model.end()) { M m = {d, pr, par, true, false}; model[key] = m; ctx.ev("cells_queued"); }
            else if (it->second.queued && d + pr <= (double)tot(it->second)) { it->second.d = d; it->second.par = par; ++applied; ctx.ev("reoffers_applied"); }
            else { ++rejected; ctx.ev("reoffers_rejected"); }
        } else if (u < 0.93) {
            Node* f = l.getFirstNode();
            ctx.in << " pop";
            long best = std::numeric_limits<long>::max(); bool any = false;
            for (auto& e : model) if (e.second.queued) { any = true; best = std::min(best, tot(e.second)); }
            ctx.check((f != 0) == any, "pop-emptiness", str("extraction ", f ? "yielded a cell from an empty list" : "yielded nothing although cells are queued"));
            if (!f) { ctx.ev("pops_empty"); continue; }
            ctx.ev("pops");
            std::pair<int, int> key(f->getPosition().x, f->getPosition().y);
            auto it = model.find(key);
            ctx.check(it != model.end() && it->second.queued, "pop-not-queued", str("extracted cell ", key.first, ",", key.second, " is not queued"));
            ctx.check(tot(it->second) == best, "pop-order", str("extracted cost ", tot(it->second), ", minimal queued cost ", best));
            ctx.check((long)f->getValue() == tot(it->second), "pop-value", str("extracted node reports cost ", f->getValue(), ", model ", tot(it->second)));
            ctx.check(f->getDistance() == it->second.d, "pop-distance", str("extracted node distance ", f->getDistance(), ", model ", it->second.d));
            ctx.check(f->getParent() == it->second.par, "pop-parent", "extracted node has another predecessor than the model");
            ctx.check(f->isVisited(), "pop-visited", "extracted node not marked as visited");
            it->second.queued = false; it->second.visited = true;
            parents.push_back(f);
        } else if (u < 0.96) {
            waypoint_t c; c.x = (int)r.range(0, w - 1); c.y = r.chance(0.5) ? h + (int)r.range(0, 3) : -(int)r.range(1, 3);
            ctx.in << " out(" << c.x << "," << c.y << ")";
            l.addNode(c, 0, 0, 0); // must be ignored
            ctx.ev("outside_ignored");
        } else {
            ctx.in << " reset";
            l.prepareNewSearch();
            model.clear(); parents.assign(1, (Node*)0);
            ctx.ev("resets");
        }
    }
    // drain
    long last = -1;
    for (;;) {
        Node* f = l.getFirstNode();
        size_t left = 0;
        for (auto& e : model) left += e.second.queued;
        ctx.check((f != 0) == (left > 0), "drain-count", str("draining: ", left, " cells left in the model, extraction ", f ? "succeeded" : "yielded nothing"));
        if (!f) break;
        auto it = model.find(std::make_pair(f->getPosition().x, f->getPosition().y));
        ctx.check(it != model.end() && it->second.queued, "drain-not-queued", "extracted a cell that is not queued");
        ctx.check(tot(it->second) >= last, "drain-order", "extraction order decreases");
        last = tot(it->second);
        it->second.queued = false;
        ctx.ev("pops");
    }
    ctx.mix(ctx.idx); ctx.mix(n); ctx.mixd(scale); ctx.mix(applied * 1000 + rejected);
    if (applied && rejected) ctx.interesting();
}
