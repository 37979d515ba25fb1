#include "threads.hpp"
#include <Eigen/Core>
#include <cslibs_path_planning/generic/Algorithms.hpp>
#include <cslibs_path_planning/generic/SteeringNeighborhood.hpp>
#include <cslibs_path_planning/generic/DynamicSteeringNeighborhood.h>
#include <cslibs_path_planning/generic/ReedsSheppExpansion.hpp>
using namespace lib_path;

namespace {
template <class S> void go(vf::Rng& r, GridMap2d* map, vthr::Digest& out) {
    S s;
    int n = (int)r.range(1, 2);
    for (int i = 0; i < n; ++i) {
        s.setMap(map);
        double w = map->getWidth(), h = map->getHeight();
        Pose2d a(r.real(0, w - 0.01), r.real(0, h - 0.01), r.real(-3, 3)), b(r.real(0, w - 0.01), r.real(0, h - 0.01), r.real(-3, 3));
        try {
            long calls = 0;
            typename S::PathT p = r.chance(0.5) ? s.findPath(a, b, [&calls] { ++calls; }, SearchOptions()) : s.findPath(a, b, SearchOptions());
            out.push_back(calls);
            out.push_back(p.size());
            for (size_t k = 0; k < p.size(); ++k) {
                out.push_back(p[k].x); out.push_back(p[k].y); out.push_back(p[k].theta); out.push_back(p[k].distance);
                out.push_back(p[k].steering_angle); out.push_back(p[k].forward);
            }
        }
        catch (typename S::StartNotFreeException&) { out.push_back(-1); }
        catch (typename S::GoalNotFreeException&) { out.push_back(-2); }
        out.push_back(s.getExpansions()); out.push_back(s.getTouchedNodes());
    }
}
}
void vthr::steering_config() {
    typedef DynamicSteeringNeighborhood D;
    D::distance_step = 0.9; D::MAX_STEER_ANGLE = 30; D::STEER_DELTA = 30; D::steer_steps = 1; D::LA = 1.1;
    D::allow_forward = true; D::allow_backward = false; D::reversed = false;
    D::goal_dist_threshold = 0.6; D::goal_angle_threshold = M_PI / 4;
}
void vthr::steering_job(vf::Rng r, GridMap2d* map, Digest& out) {
    switch (r.range(0, 3)) {
    case 0: go<AStarDynamicSearch<SteeringNeighborhood<100, 1, 30, 30, 120, 3, false, 1>, NoExpansion> >(r, map, out); break;
    case 1: go<AStarDynamicSearch<SteeringNeighborhood<80, 1, 30, 30, 90, 6, true, 1>, NoExpansion> >(r, map, out); break;
    case 2: go<AStarDynamicSearch<DynamicSteeringNeighborhood, NoExpansion> >(r, map, out); break;
    default: go<AStarDynamicSearch<SteeringNeighborhood<100, 1, 30, 30, 120, 3, false, 1>, ReedsSheppExpansion<4, true, false> > >(r, map, out); break;
    }
}
