// Stand-in for the external package cslibs_navigation_utilities (not available offline).
// Semantics follow its use in cslibs_path_planning: AngleClamp wraps into [-pi,pi),
// AngleDelta is the signed smallest rotation from the first to the second angle.
#ifndef SHIM_MATHHELPER_H
#define SHIM_MATHHELPER_H
#include <cmath>
#include <utility>
#include <Eigen/Core>
#include <Eigen/Geometry>

#ifndef SHIM_POINT2D_TYPEDEF
#define SHIM_POINT2D_TYPEDEF
typedef std::pair<double, double> point2D;
#endif

class MathHelper {
public:
    static double AngleClamp(double a) {
        if (!(a >= -M_PI && a < M_PI)) {
            a = a - 2 * M_PI * std::floor((a + M_PI) / (2 * M_PI));
            if (a >= M_PI) a -= 2 * M_PI;
            if (a < -M_PI) a = -M_PI;
        }
        return a;
    }
    static double AngleDelta(double a1, double a2) { return AngleClamp(a2 - a1); }
    static double Angle(const Eigen::Vector2d& v) { return std::atan2(v(1), v(0)); }
};

// Intersection of the segments p0p1 and p2p3: parameters s (on p0p1) and t (on p2p3).
inline bool segmentIntersection(const point2D& p0, const point2D& p1, const point2D& p2, const point2D& p3,
                                point2D& pt, double& s, double& t, double tol = 1e-9) {
    double ax = p1.first - p0.first, ay = p1.second - p0.second;
    double bx = p3.first - p2.first, by = p3.second - p2.second;
    double det = ax * by - ay * bx;
    if (std::fabs(det) <= 1e-14 * (std::hypot(ax, ay) * std::hypot(bx, by) + 1e-300)) return false;
    double cx = p2.first - p0.first, cy = p2.second - p0.second;
    s = (cx * by - cy * bx) / det;
    t = (cx * ay - cy * ax) / det;
    if (s < -tol || s > 1 + tol || t < -tol || t > 1 + tol) return false;
    pt.first = p0.first + s * ax;
    pt.second = p0.second + s * ay;
    return true;
}
#endif
