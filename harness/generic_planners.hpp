// Uniform access to the generic 2D searches of all heuristics and neighborhoods.
// The planners themselves are instantiated in gp_*.cpp (compiled in parallel).
#ifndef VERIF_GENERIC_PLANNERS_HPP
#define VERIF_GENERIC_PLANNERS_HPP
#include "maps.hpp"
#include <memory>
#include <cslibs_path_planning/generic/Algorithms.hpp>
#include <cslibs_path_planning/common/SimpleGridMap2d.h>
#include <cslibs_path_planning/common/CollisionGridMap2d.h>

namespace vgen {
using namespace vf;
using namespace lib_path;

const double INF = std::numeric_limits<double>::infinity();

struct PNode { double x, y, theta, g; };
typedef std::vector<PNode> PPath;

struct GoalSpec { double x, y, cost; bool stop; };   // custom goal test: cells with candidate costs / stop cells

struct Abort {};                                 // thrown by callbacks of the harness
// Factor of the patchy heuristic in a cell: it never overestimates, but may fall by more than a step costs.
inline unsigned& patch_seed() { static thread_local unsigned s = 1; return s; }
inline double patch_factor(double x, double y) {
    unsigned s = patch_seed(), k = s % 3;                       // single cells, blocks, stripes
    unsigned a = (unsigned)(x / (k == 0 ? 1 : k == 1 ? 3 : 2)), b = (unsigned)(y / (k == 0 ? 1 : k == 1 ? 3 : 7));
    unsigned v = (a * 73856093u) ^ (b * 19349663u) ^ (s * 83492791u);
    v ^= v >> 13; v *= 0x5bd1e995u; v ^= v >> 15;
    return (v % 5) < 2 ? 0 : (v % 5) == 2 ? 0.5 : 1;
}
inline std::function<void()>& test_hook() { static thread_local std::function<void()> h; return h; }   // called by custom goal tests

struct Found {
    PPath path;
    std::string exc;
    int expansions, multi, touched;
    std::vector<PPath> candidates;
    Found() : expansions(0), multi(0), touched(0) {}
};

struct Planner {
    virtual ~Planner() {}
    virtual void map(const GridMap2d* m) = 0;
    virtual Found find(const Pose2d& a, const Pose2d& b, const SearchOptions& so) = 0;
    virtual Found find_cb(const Pose2d& a, const Pose2d& b, boost::function<void()> cb, const SearchOptions& so) = 0;
    virtual Found find_custom(const Pose2d& a, const std::vector<GoalSpec>& gs, const SearchOptions& so, const Pose2d* heuristic_goal) = 0;
    virtual void limit(double s) = 0;
    virtual void candidate_cb(std::function<bool(const PPath&)> f) = 0;
    virtual int expansions() = 0;
    virtual size_t candidates() = 0;         // solutions found by the last search
    int n, d;             // neighborhood size and step length
    char heur;            // '2' L2, '1' L1, 'i' LInf, 'm' max(L2,LInf), 'o' overestimate, 'p' patchy: L2 in some cells, less in others
    bool admissible() const { return heur == '2' || heur == 'i' || heur == 'm' || heur == 'p' || (heur == '1' && n == 4); }
    double h(double dx, double dy, double res) const {
        dx = std::fabs(dx); dy = std::fabs(dy);
        switch (heur) {
        case '2': case 'm': return res * std::sqrt(dx * dx + dy * dy);
        case '1': return res * (dx + dy);
        case 'i': return res * std::max(dx, dy);
        default: return res * std::pow(std::sqrt(dx * dx + dy * dy), 1.2);
        }
    }
    std::string name() const { return str(heur, "/", n, "/", d); }
};

template <int N, int D> std::unique_ptr<Planner> make_nd(char heur);   // instantiated in gp_N_D.cpp
inline std::unique_ptr<Planner> make(int n, int d, char heur) {
    if (n == 4) return d == 1 ? make_nd<4, 1>(heur) : d == 2 ? make_nd<4, 2>(heur) : make_nd<4, 3>(heur);
    return d == 1 ? make_nd<8, 1>(heur) : d == 2 ? make_nd<8, 2>(heur) : make_nd<8, 3>(heur);
}

} // namespace vgen
#endif
