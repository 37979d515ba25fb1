From a1eec6ddd6f4e9310b561a7a167fb0f6e4c56fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:01 +0000
Subject: [PATCH 01/59] fix: map area iteration skipped the first cell and read
 past the last one

next() selects a cell by advancing the counter, so the selected cell is the one before it.
---
 include/cslibs_path_planning/common/GridMap2d.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/cslibs_path_planning/common/GridMap2d.h b/include/cslibs_path_planning/common/GridMap2d.h
index c4caceb..22a3c23 100644
--- a/include/cslibs_path_planning/common/GridMap2d.h
+++ b/include/cslibs_path_planning/common/GridMap2d.h
@@ -303,8 +303,8 @@ public:
     }
 
     virtual void getCell( int& x, int& y ) const {
-        x = cells_[counter_].first + center_x_;
-        y = cells_[counter_].second + center_y_;
+        x = cells_[counter_ - 1].first + center_x_;
+        y = cells_[counter_ - 1].second + center_y_;
     }
 
     virtual uint8_t getValue() const
@@ -332,7 +332,7 @@ protected:
     /// Current y coordinate of center point (cell coordinates)
     int center_y_;
 
-    /// Points to the currently selected cell
+    /// Points behind the currently selected cell (0 before the first call of next())
     std::size_t counter_;
 };
 
@@ -372,7 +372,7 @@ public:
      * @return Previously buffered cell value.
      */
     virtual uint8_t getValue() const {
-        return values_[counter_];
+        return values_[counter_ - 1];
     }
 
     /**
@@ -380,7 +380,7 @@ public:
      * @param value Value of the currently selected cell.
      */
     virtual void setValue( const uint8_t value ) {
-        values_[counter_] = value;
+        values_[counter_ - 1] = value;
     }
 
 protected:
@@ -432,15 +432,15 @@ public:
     }
 
     virtual void getCell( int& x, int& y ) const {
-        x = cells_[counter_].first;
-        y = cells_[counter_].second;
+        x = cells_[counter_ - 1].first;
+        y = cells_[counter_ - 1].second;
     }
 
     virtual uint8_t getValue() const
         { return value_; }
 
 protected:
-    /// Points to the current cell
+    /// Points behind the current cell (0 before the first call of next())
     std::size_t counter_;
 
     /// All cells of this area
-- 
2.43.0


From 914e600e7cf33a50d9b8b4e018d393c1f91fb6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:37 +0000
Subject: [PATCH 02/59] fix: points left of or below a grid map were taken for
 points of the map

isInMap had no lower bound, point2cell and point2cellSubPixel truncated
coordinates in (-1,0) to cell 0 and converted other negative coordinates
to unsigned, which is undefined.
---
 .../cslibs_path_planning/common/SimpleGridMap2d.h  | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/include/cslibs_path_planning/common/SimpleGridMap2d.h b/include/cslibs_path_planning/common/SimpleGridMap2d.h
index 5ccccf0..99c2e12 100644
--- a/include/cslibs_path_planning/common/SimpleGridMap2d.h
+++ b/include/cslibs_path_planning/common/SimpleGridMap2d.h
@@ -146,20 +146,18 @@ public:
     }
 
     bool point2cell( const double px, const double py, unsigned int& x, unsigned int& y ) const {
-        x = (unsigned int)((px - origin_.x)/res_);
-        y = (unsigned int)((py - origin_.y)/res_);
-
-        if ( !isInMap( (int)x, (int)y ))
+        double cx, cy;
+        if ( !SimpleGridMap2d::point2cellSubPixel( px, py, cx, cy ))
             return false;
+        x = (unsigned int)cx;
+        y = (unsigned int)cy;
         return true;
     }
     virtual bool point2cellSubPixel( const double px, const double py, double& x, double& y ) const {
         x = (px - origin_.x)/res_;
         y = (py - origin_.y)/res_;
 
-        if ( !isInMap( (int)x, (int)y ))
-            return false;
-        return true;
+        return x >= 0 && y >= 0 && x < width_ && y < height_;
     }
 
     void cell2point( const unsigned int x, const unsigned int y, double& px, double& py ) const {
@@ -176,7 +174,7 @@ public:
         { return !(x < 0 || y < 0 || x >= (int)width_ || y >= (int)height_); }
 
     bool isInMap( const double x, const double y ) const
-        { return (x - origin_.x)/res_ < width_ && (y - origin_.y)/res_ < height_; }
+        { double cx, cy; return SimpleGridMap2d::point2cellSubPixel( x, y, cx, cy ); }
 
     unsigned char* getData()
     {
-- 
2.43.0


From 5c8c32bf6b32d5039427f76c87f96f861d1bb6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:37 +0000
Subject: [PATCH 03/59] fix: rotated maps ignored origin, resolution or
 rotation in bounds checks

isInMap compared rotated points with the cell counts directly, point2cell
accepted or mis-converted negative coordinates and point2cellSubPixel was
inherited from the unrotated map.
---
 .../common/RotatedGridMap2d.h                 | 24 +++++++------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/include/cslibs_path_planning/common/RotatedGridMap2d.h b/include/cslibs_path_planning/common/RotatedGridMap2d.h
index 2b64e1a..3375ab4 100644
--- a/include/cslibs_path_planning/common/RotatedGridMap2d.h
+++ b/include/cslibs_path_planning/common/RotatedGridMap2d.h
@@ -78,12 +78,14 @@ public:
         double rx = c * nx - s * ny;
         double ry = s * nx + c * ny;
 
-        x = (rx - origin_.x)/res_;
-        y = (ry - origin_.y)/res_;
+        return SimpleGridMap2d::point2cell( rx, ry, x, y );
+    }
 
-        if ( !isInMap( (int)x, (int)y ))
-            return false;
-        return true;
+    virtual bool point2cellSubPixel( const double px, const double py, double& x, double& y ) const {
+        double c = std::cos(-yaw_);
+        double s = std::sin(-yaw_);
+
+        return SimpleGridMap2d::point2cellSubPixel( c * px - s * py, s * px + c * py, x, y );
     }
 
     void cell2point( const unsigned int x, const unsigned int y, double& px, double& py ) const {
@@ -119,16 +121,8 @@ public:
     }
    
     bool isInMap( const double x, const double y ) const {
-        double c = std::cos(-yaw_);
-        double s = std::sin(-yaw_);
-       
-        double nx = x;// - origin_.x;
-        double ny = y;// - origin_.y;
-        
-        int px = c * nx - s * ny;
-        int py = s * nx + c * ny;
-
-        return px >= 0 && py >= 0 && px < (int) width_ && py < (int) height_;
+        unsigned int cx, cy;
+        return point2cell( x, y, cx, cy );
     }
 
     virtual double getRotation() const 
-- 
2.43.0


From 8d11c9a951c3e9a92b878a374951caad597ea619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:37 +0000
Subject: [PATCH 04/59] fix: cell queries by point read outside of the map for
 points not on it

---
 include/cslibs_path_planning/common/GridMap2d.h | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/include/cslibs_path_planning/common/GridMap2d.h b/include/cslibs_path_planning/common/GridMap2d.h
index 22a3c23..4f3a058 100644
--- a/include/cslibs_path_planning/common/GridMap2d.h
+++ b/include/cslibs_path_planning/common/GridMap2d.h
@@ -183,20 +183,17 @@ public:
 
     bool isFree( const Point2d& p ) const {
         unsigned int x, y;
-        point2cell( p, x, y );
-        return isFree( x, y );
+        return point2cell( p, x, y ) && isFree( x, y );
     }
 
     bool isOccupied( const Point2d& p ) const {
         unsigned int x, y;
-        point2cell( p, x, y );
-        return isOccupied( x, y );
+        return point2cell( p, x, y ) && isOccupied( x, y );
     }
 
     bool isNoInformation( const Point2d& p ) const {
         unsigned int x, y;
-        point2cell( p, x, y );
-        return isNoInformation( x, y );
+        return point2cell( p, x, y ) && isNoInformation( x, y );
     }
 
     /**
-- 
2.43.0


From 6aa79c03869de9d0ce35b9d34be15b9965186b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:37 +0000
Subject: [PATCH 05/59] fix: isAreaNoInformation was true exactly for areas
 with information

---
 src/common/GridMap2d.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/GridMap2d.cpp b/src/common/GridMap2d.cpp
index 481acda..a57b443 100644
--- a/src/common/GridMap2d.cpp
+++ b/src/common/GridMap2d.cpp
@@ -84,7 +84,7 @@ bool GridMap2d::isAreaNoInformation(MapArea2d &area ) const
     int x, y;
     while ( area.next()) {
         area.getCell( x, y );
-        if ( isInMap( x, y ) && isNoInformation(x, y))
+        if ( isInMap( x, y ) && !isNoInformation(x, y))
             return false;
     }
     return true;
-- 
2.43.0


From d722cf6a4a04fda2c0434a4694cea3d30f5e1fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:37 +0000
Subject: [PATCH 06/59] fix: robot footprint left out the area in front of and
 behind the robot

The sampled rows connected diagonally opposite corners, so the samples
formed a bow tie instead of the rectangle.
---
 src/common/CollisionGridMap2d.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/CollisionGridMap2d.cpp b/src/common/CollisionGridMap2d.cpp
index 89c8177..d1b02fb 100644
--- a/src/common/CollisionGridMap2d.cpp
+++ b/src/common/CollisionGridMap2d.cpp
@@ -43,8 +43,8 @@ RobotArea::RobotArea(CollisionGridMap2d const*  parent, double forward, double b
 
     double i_row = 0.0;
     for(int row = 0; row <= steps_row; ++row) {
-        Eigen::Vector2d left = bl + i_row * (fl-bl);
-        Eigen::Vector2d right = fr + i_row * (br-fr);
+        Eigen::Vector2d left = bl + i_row * (br-bl);
+        Eigen::Vector2d right = fl + i_row * (fr-fl);
 
         double i_col = 0.0;
         for(int col = 0; col <= steps_col; ++col) {
-- 
2.43.0


From fa47ae1b8f63b766eb81faf23816871e453d8901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:37 +0000
Subject: [PATCH 07/59] fix: rotated footprint queries used the angle in
 radians as footprint index

Only the first seven of 128 headings were ever used.
---
 .../common/CollisionGridMap2d.h               |  2 ++
 src/common/CollisionGridMap2d.cpp             | 29 +++++++++----------
 2 files changed, 15 insertions(+), 16 deletions(-)

diff --git a/include/cslibs_path_planning/common/CollisionGridMap2d.h b/include/cslibs_path_planning/common/CollisionGridMap2d.h
index b14d89c..086e992 100644
--- a/include/cslibs_path_planning/common/CollisionGridMap2d.h
+++ b/include/cslibs_path_planning/common/CollisionGridMap2d.h
@@ -46,6 +46,8 @@ public:
 
 
 private:
+    static int angle2slot( const double theta );
+
     RobotArea* areas_[ANGLE_DISCRETIZATION];
 };
 
diff --git a/src/common/CollisionGridMap2d.cpp b/src/common/CollisionGridMap2d.cpp
index d1b02fb..7473f36 100644
--- a/src/common/CollisionGridMap2d.cpp
+++ b/src/common/CollisionGridMap2d.cpp
@@ -148,7 +148,7 @@ CollisionGridMap2d::CollisionGridMap2d(const unsigned int w, const unsigned int
     : RotatedGridMap2d(w,h, yaw, r)
 {
     for(int t = 0; t< ANGLE_DISCRETIZATION; ++t) {
-        double theta = (2 * M_PI) * (t / (ANGLE_DISCRETIZATION + 1.0));
+        double theta = (2 * M_PI) * t / ANGLE_DISCRETIZATION;
         double res = getResolution();
 
         areas_[t] = new RobotArea(this, forward / res, backward / res, width / res, theta);
@@ -172,6 +172,15 @@ CollisionGridMap2d::~CollisionGridMap2d()
     }
 }
 
+int CollisionGridMap2d::angle2slot(const double theta)
+{
+    double t = theta;
+    while(t < 0) t += 2*M_PI;
+    while(t >= 2*M_PI) t -= 2*M_PI;
+
+    return (int) round(t / (2*M_PI) * ANGLE_DISCRETIZATION) % ANGLE_DISCRETIZATION;
+}
+
 bool CollisionGridMap2d::isOccupiedRotated(const unsigned int x, const unsigned int y, const double theta) const
 {
     if(!isInMap((int) x,(int) y)) {
@@ -182,12 +191,8 @@ bool CollisionGridMap2d::isOccupiedRotated(const unsigned int x, const unsigned
         return true;
     }
 
-    double t = theta;
-    while(t < 0) t += 2*M_PI;
-    while(t >= 2*M_PI) t -= 2*M_PI;
-
     // check boundary
-    RobotArea* a = areas_[(int) round(t)];
+    RobotArea* a = areas_[angle2slot(theta)];
     a->setPosition(x,y);
     bool occ = isAreaOccupied(*a);
     return occ;
@@ -199,12 +204,8 @@ bool CollisionGridMap2d::isFreeRotated(const unsigned int x, const unsigned int
         return false;
     }
 
-    double t = theta;
-    while(t < 0) t += 2*M_PI;
-    while(t >= 2*M_PI) t -= 2*M_PI;
-
     // check boundary
-    RobotArea* a = areas_[(int) round(t)];
+    RobotArea* a = areas_[angle2slot(theta)];
     a->setPosition(x,y);
     bool free = isAreaFree(*a);
     return free;
@@ -220,12 +221,8 @@ bool CollisionGridMap2d::isNoInformationRotated(const unsigned int x, const unsi
         return false;
     }
 
-    double t = theta;
-    while(t < 0) t += 2*M_PI;
-    while(t >= 2*M_PI) t -= 2*M_PI;
-
     // check boundary
-    RobotArea* a = areas_[(int) round(t)];
+    RobotArea* a = areas_[angle2slot(theta)];
     a->setPosition(x,y);
     bool no_info = isAreaNoInformation(*a);
     return no_info;
-- 
2.43.0


From a3b2475fe6892daad1193c0490608bbc58e248ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:05 +0000
Subject: [PATCH 08/59] fix: compile time rounding was off by one right below
 one half

---
 include/cslibs_path_planning/common/TmpMath.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/cslibs_path_planning/common/TmpMath.hpp b/include/cslibs_path_planning/common/TmpMath.hpp
index fd9dd25..4b857cf 100644
--- a/include/cslibs_path_planning/common/TmpMath.hpp
+++ b/include/cslibs_path_planning/common/TmpMath.hpp
@@ -7,7 +7,9 @@ namespace tmpmath
 // Compile time rounding to nearest whole number
 constexpr int round(double x)
 {
-    return (x >= 0 ? x + 0.5 : x - 0.5);
+    // the fraction is exact, x + 0.5 is not
+    return x >= 0 ? int(x) + (x - int(x) >= 0.5 ? 1 : 0)
+                  : int(x) - (int(x) - x >= 0.5 ? 1 : 0);
 }
 } // namespace tmpmath
 
-- 
2.43.0


From 7baf0cae0aebb68c4b038c61dedf3f3f5a60d230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:05 +0000
Subject: [PATCH 09/59] fix: path poses with a smaller heading counted as
 identical

---
 include/cslibs_path_planning/geometry/shape.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cslibs_path_planning/geometry/shape.h b/include/cslibs_path_planning/geometry/shape.h
index e35a06a..856b1d7 100644
--- a/include/cslibs_path_planning/geometry/shape.h
+++ b/include/cslibs_path_planning/geometry/shape.h
@@ -88,7 +88,7 @@ public:
     bool isIdentical(const PathPose& other, double dist_tol=path_geom::DIST_EPS,
                      double angle_tol=path_geom::ANGLE_EPS) {
         return ((pos_-other.pos_).norm()<dist_tol &&
-              MathHelper::AngleDelta( theta_, other.theta_)<angle_tol);
+              fabs(MathHelper::AngleDelta( theta_, other.theta_))<angle_tol);
     }
 
     bool isIdentical(const Eigen::Vector2d& other, double dist_tol=path_geom::DIST_EPS) {
-- 
2.43.0


From bbee2df9e9e766af9b3adb512b78547664e05fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:05 +0000
Subject: [PATCH 10/59] fix: last pose sampled from a line was left at the
 origin

---
 src/geometry/line.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometry/line.cpp b/src/geometry/line.cpp
index 4f4ccb0..29f2dac 100644
--- a/src/geometry/line.cpp
+++ b/src/geometry/line.cpp
@@ -76,7 +76,7 @@ void Line::toPoses(double resolution, PathPoseVec &poses, int move_direction, bo
         poses.resize(n);
         p=p+step;
     }
-    for (int i=0;i<n;++i) {
+    for (size_t i=0;i<poses.size();++i) {
         poses[i].pos_=p;
         poses[i].theta_ = theta;
         p+=step;
-- 
2.43.0


From f5b5497417420bd716343866470e9fc8717a3c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:05 +0000
Subject: [PATCH 11/59] fix: points sampled from an arc ignored its center and
 direction

---
 src/geometry/circle.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/geometry/circle.cpp b/src/geometry/circle.cpp
index d6cdc21..bf0dada 100644
--- a/src/geometry/circle.cpp
+++ b/src/geometry/circle.cpp
@@ -186,9 +186,11 @@ void Circle::toPoints(double resolution, std::vector<Vector2d> &points)
     double dphi = arc_angle/steps;
     points.resize(steps);
     double phi = start_angle_;
+    if (arc_direction_==path_geom::ARC_RIGHT) {
+        dphi = -1.0*dphi;
+    }
     for (int i=0;i<steps;++i) {
-        points[i].x() = radius_*cos(phi);
-        points[i].y() = radius_*sin(phi);
+        points[i] = center_+ radius_*Vector2d(cos(phi),sin(phi));
         phi+=dphi;
 
     }
-- 
2.43.0


From df44d97e49979e39356136ec9f07b7a1645d1fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:05 +0000
Subject: [PATCH 12/59] fix: intersecting concentric circles kept the previous
 results

---
 src/geometry/intersector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometry/intersector.cpp b/src/geometry/intersector.cpp
index b1013fe..d248469 100644
--- a/src/geometry/intersector.cpp
+++ b/src/geometry/intersector.cpp
@@ -42,6 +42,7 @@ void Intersector::intersect(const Circle &c1, const Circle &c2, std::vector<Eige
                             double tol)
 {
     tol=fabs(tol);
+    res_points.clear();
     //Calculate distance between centres of circle
     Vector2d c1c2 = c2.center()-c1.center();
     double d = (c1c2).norm();
@@ -52,7 +53,6 @@ void Intersector::intersect(const Circle &c1, const Circle &c2, std::vector<Eige
     double r2 = c2.radius();
     double m = r1+r2;
     double n = fabs(r1-r2);
-    res_points.clear();
     //No solns
     if ( d > m+tol )
         return;
-- 
2.43.0


From cc1ead0961e02471cbf4c907d2cc8021bbf9e5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:05 +0000
Subject: [PATCH 13/59] fix: circles touching from inside had no or two
 intersections

---
 src/geometry/intersector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometry/intersector.cpp b/src/geometry/intersector.cpp
index d248469..179855a 100644
--- a/src/geometry/intersector.cpp
+++ b/src/geometry/intersector.cpp
@@ -70,7 +70,7 @@ void Intersector::intersect(const Circle &c1, const Circle &c2, std::vector<Eige
             c1.center().y() + ( a / d ) * ( c1c2.y() ));
 
     //1 soln , circles are touching
-    if ( fabs(r1 + r2 -d)<tol|| d+fabs(r1-r2)<tol) {
+    if ( fabs(r1 + r2 -d)<tol|| fabs(n-d)<tol) {
         res_points.push_back(p);
 
         return;
-- 
2.43.0


From 4a55c3fe438e02b51db8591a2abb56e86e184a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:05 +0000
Subject: [PATCH 14/59] fix: no tangent path was ever found from the inner to
 the outer circle

---
 src/geometry/tangentor.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/geometry/tangentor.cpp b/src/geometry/tangentor.cpp
index 572fccf..ed77582 100644
--- a/src/geometry/tangentor.cpp
+++ b/src/geometry/tangentor.cpp
@@ -246,6 +246,9 @@ void Tangentor::tangentPath(const Circle &small, const Circle &large, double rad
             if (!from_small) {
                 tcircle.selectStartPoint(ipoints_large.front());
                 tcircle.selectEndPoint(ipoints_small.front());
+            } else {
+                tcircle.selectStartPoint(ipoints_small.front());
+                tcircle.selectEndPoint(ipoints_large.front());
             }
             tangent_arcs.push_back(tcircle);
         } else {
-- 
2.43.0


From 8f56fbd05a6ba469b5da9f1b34fe7068639c9fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:06 +0000
Subject: [PATCH 15/59] fix: inner tangent arcs passing the angle zero were not
 found

---
 src/geometry/tangentor.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/geometry/tangentor.cpp b/src/geometry/tangentor.cpp
index ed77582..8865696 100644
--- a/src/geometry/tangentor.cpp
+++ b/src/geometry/tangentor.cpp
@@ -306,17 +306,18 @@ void Tangentor::tangentInnerArcs(const Circle &circle1, const Circle &circle2, d
     std::cout << "tangentinnerarcs: found "<< tangent_circles.size()<<" circles"<<std::endl;
     for (auto& tangent_circle : tangent_circles) {
         // find the end point of the arc
-        std::vector<Eigen::Vector2d> ipoints;
+        std::vector<Eigen::Vector2d> ipoints, ipoints2;
         //std::cout << "circle1 center "<<circle1.center() << " tangent circle "<<tangent_circle.center() << std::endl;
         //std::cout << "radius circle1 "<<circle1.radius() << " radius tangentcircle2 "<< tangent_circle.radius()<<std::endl;
         Intersector::intersectArcs(circle1, tangent_circle, ipoints,tol);
         //std::cout << "intersection points circle 1 to arc:"<<ipoints.size() << std::endl;
         if (ipoints.size()==1) {
-            tangent_circle.setStartAngle(ipoints[0]);
-            Intersector::intersectArcs(tangent_circle, circle2, ipoints,tol);
-          //  std::cout << "intersection points arc to circle 2 :"<<ipoints.size() << std::endl;
-            if (ipoints.size()==1) {
-                tangent_circle.setEndAngle(ipoints[0]);
+            // the whole tangent circle is searched, its end is not known before
+            Intersector::intersectArcs(tangent_circle, circle2, ipoints2,tol);
+          //  std::cout << "intersection points arc to circle 2 :"<<ipoints2.size() << std::endl;
+            if (ipoints2.size()==1) {
+                tangent_circle.setStartAngle(ipoints[0]);
+                tangent_circle.setEndAngle(ipoints2[0]);
                 arcs.push_back(tangent_circle);
             }
         }
-- 
2.43.0


From 7024e4bf7e92f074b8ac2d0f4a014f862fcdaf4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:34 +0000
Subject: [PATCH 16/59] fix: poses left of or below the map were looked up as
 cells of the map

---
 .../generic/MapManager.hpp                    | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/include/cslibs_path_planning/generic/MapManager.hpp b/include/cslibs_path_planning/generic/MapManager.hpp
index 718b50e..1ef18b3 100644
--- a/include/cslibs_path_planning/generic/MapManager.hpp
+++ b/include/cslibs_path_planning/generic/MapManager.hpp
@@ -201,12 +201,7 @@ struct GridMapManager :
 
     template <class PointT>
     NodeType* lookup(const PointT& reference) const {
-        unsigned y = reference.y;
-        unsigned x = reference.x;
-        if((x < 0) || (y < 0) || (x >= w) || (y >= h)) {
-            throw OutsideMapException();
-        }
-        return &data[index(x,y)];
+        return lookup((double) reference.x, (double) reference.y);
     }
 
     NodeType* lookup(const int x, const int y) const {
@@ -216,7 +211,7 @@ struct GridMapManager :
         return &data[index(x,y)];
     }
     NodeType* lookup(const double x, const double y, double ignored = 0) const {
-        if((x < 0) || (y < 0)) {
+        if((x < 0) || (y < 0) || (x >= w) || (y >= h)) {
             throw OutsideMapException();
         }
         return lookup((int) std::floor(x), (int) std::floor(y));
@@ -386,16 +381,10 @@ public:
 
     template <class PointT>
     NodeType* lookup(const PointT& reference) {
-        unsigned y = reference.y;
-        unsigned x = reference.x;
-        unsigned t = angle2index(reference.theta);
-        return &data[index(x,y,t, reference.forward)];
+        return lookup((double) reference.x, (double) reference.y, reference.theta, reference.forward);
     }
     NodeType* lookup(const Pose2d& reference) {
-        unsigned y = reference.y;
-        unsigned x = reference.x;
-        unsigned t = angle2index(reference.theta);
-        return &data[index(x,y,t, true)];
+        return lookup(reference.x, reference.y, reference.theta, true);
     }
 
     NodeType* lookup(const int x, const int y, double theta, bool forward) {
-- 
2.43.0


From 3ce6dc25c6dff85f797800dbc306ace7b4990713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:04 +0000
Subject: [PATCH 17/59] fix: start or goal outside of the map did not raise the
 search's exceptions

---
 .../generic/SearchAlgorithm.hpp               | 23 +++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/include/cslibs_path_planning/generic/SearchAlgorithm.hpp b/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
index 35c1668..99a6a22 100644
--- a/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
+++ b/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
@@ -464,7 +464,12 @@ protected:
     {
         bool outside = false;
         bool occupied = false;
-        auto start_poses = NodeT::getPoses(map_, pose);
+        std::vector<NodeT*> start_poses;
+        try {
+            start_poses = NodeT::getPoses(map_, pose);
+        } catch(const OutsideMapException& e) {
+            outside = true;
+        }
         for(NodeT* s : start_poses) {
             try {
                 if(!map_.isOccupied(s)) {
@@ -496,7 +501,12 @@ protected:
     {
         bool outside = false;
         bool occupied = false;
-        auto start_poses = NodeT::getPoses(map_, node);
+        std::vector<NodeT*> start_poses;
+        try {
+            start_poses = NodeT::getPoses(map_, node);
+        } catch(const OutsideMapException& e) {
+            outside = true;
+        }
         for(NodeT* s : start_poses) {
             try {
                 if(!map_.isOccupied(s)) {
@@ -545,7 +555,12 @@ protected:
 
         bool outside = false;
         bool occupied = false;
-        auto goal_poses = NodeT::getPoses(map_, pose);
+        std::vector<NodeT*> goal_poses;
+        try {
+            goal_poses = NodeT::getPoses(map_, pose);
+        } catch(const OutsideMapException& e) {
+            outside = true;
+        }
         for(NodeT* g : goal_poses) {
             try {
                 if(!map_.isOccupied(g)) {
@@ -560,7 +575,7 @@ protected:
             }
         }
 
-        if(start.empty()) {
+        if(goal.empty()) {
             if(occupied) {
                 throw GoalNotFreeException();
             } else if(outside) {
-- 
2.43.0


From 69f87a53cacf9c3b35b00736e25685089c86d233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:04 +0000
Subject: [PATCH 18/59] fix: open list kept pointers to the freed nodes of a
 replaced map

---
 include/cslibs_path_planning/generic/SearchAlgorithm.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/cslibs_path_planning/generic/SearchAlgorithm.hpp b/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
index 99a6a22..23e982a 100644
--- a/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
+++ b/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
@@ -129,6 +129,8 @@ public:
     {}
 
     virtual void setMap(const MapT* map) {
+        // the nodes might get freed
+        open.clear();
         map_.setMap(map);
         NeighborhoodType::setResolution(map->getResolution());
     }
-- 
2.43.0


From 1dc038b8e08887c3b68dc614a33b5f7950c77636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:04 +0000
Subject: [PATCH 19/59] fix: number of touched nodes was never reset between
 searches

---
 include/cslibs_path_planning/generic/SearchAlgorithm.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cslibs_path_planning/generic/SearchAlgorithm.hpp b/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
index 23e982a..d6a69b3 100644
--- a/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
+++ b/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
@@ -451,6 +451,7 @@ protected:
     {
         expansions = 0;
         multi_expansions = 0;
+        touched = 0;
         updates = 0;
 
         result = {};
-- 
2.43.0


From b62d5b35a1d3522a31609749a1c1f3d4d741f0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:22 +0000
Subject: [PATCH 20/59] fix: headings of earlier searches stayed in the nodes
 of a grid planner

---
 include/cslibs_path_planning/generic/MapManager.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cslibs_path_planning/generic/MapManager.hpp b/include/cslibs_path_planning/generic/MapManager.hpp
index 1ef18b3..2285e4b 100644
--- a/include/cslibs_path_planning/generic/MapManager.hpp
+++ b/include/cslibs_path_planning/generic/MapManager.hpp
@@ -191,6 +191,7 @@ struct GridMapManager :
         for(unsigned y = 0; y < h; ++y) {
             for(unsigned x = 0; x < w; ++x) {
                 NodeType::init(data[index(x,y)], x, y);
+                data[index(x,y)].theta = 0;
             }
         }
     }
-- 
2.43.0


From db9573359010b01c1ea48eb0b32676ad1383a756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:27 +0000
Subject: [PATCH 21/59] fix: searches could use the heuristic goal of an
 earlier search

---
 include/cslibs_path_planning/generic/SearchAlgorithm.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cslibs_path_planning/generic/SearchAlgorithm.hpp b/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
index d6a69b3..2a2fbe4 100644
--- a/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
+++ b/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
@@ -461,6 +461,7 @@ protected:
 
         start.clear();
         goal.clear();
+        heuristic_goal = NULL;
     }
 
     void initStartPose(const PointT& pose)
-- 
2.43.0


From 12c91367abae86a7738d2f6dbec3aa7122eaa9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:13 +0000
Subject: [PATCH 22/59] fix: cells at the borders of the padding chunks were
 looked up in the wrong chunk

---
 include/cslibs_path_planning/generic/MapManager.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/cslibs_path_planning/generic/MapManager.hpp b/include/cslibs_path_planning/generic/MapManager.hpp
index 2285e4b..fa1453d 100644
--- a/include/cslibs_path_planning/generic/MapManager.hpp
+++ b/include/cslibs_path_planning/generic/MapManager.hpp
@@ -600,10 +600,9 @@ public:
         if((x < -padding) || (y < -padding) || (x >= (int) (w + padding)) || (y >= (int) (h + padding)) || (t < 0) || (t >= theta_slots)) {
             throw OutsideMapException();
         }
-        int cx = (x / (int) chunk_size);
-        if(x < 0) cx -= 1;
-        int cy = (y / (int) chunk_size);
-        if(y < 0) cy -= 1;
+        // the padding consists of whole chunks, so nothing is negative here
+        int cx = (x + padding) / (int) chunk_size - padding_chunks;
+        int cy = (y + padding) / (int) chunk_size - padding_chunks;
 
         int cxp = cx + padding_chunks;
         int cyp = cy + padding_chunks;
-- 
2.43.0


From 513c0bf32709a3e022170d225f0bc3d6901c75d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:13 +0000
Subject: [PATCH 23/59] fix: existing nodes were searched for in chunks without
 padding

---
 include/cslibs_path_planning/generic/MapManager.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/cslibs_path_planning/generic/MapManager.hpp b/include/cslibs_path_planning/generic/MapManager.hpp
index fa1453d..d8432e9 100644
--- a/include/cslibs_path_planning/generic/MapManager.hpp
+++ b/include/cslibs_path_planning/generic/MapManager.hpp
@@ -623,10 +623,10 @@ public:
         if((x < -padding) || (y < -padding) || (x >= (int) (w + padding)) || (y >= (int) (h + padding)) || (t < 0) || (t >= (int) theta_slots)) {
             throw OutsideMapException();
         }
-        int cx = (x / chunk_size);
-        int cy = (y / chunk_size);
+        int cxp = (x + padding) / (int) chunk_size;
+        int cyp = (y + padding) / (int) chunk_size;
 
-        Chunk* chunk = chunks.at(cy * chunks_w + cx);
+        Chunk* chunk = chunks.at(cyp * chunks_w + cxp);
         return chunk != nullptr;
     }
 
-- 
2.43.0


From 32eadd5e818e626eb42855acbbd10b2802ec7b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:13 +0000
Subject: [PATCH 24/59] fix: first map of a dynamic state space was compared
 with uninitialised sizes

---
 include/cslibs_path_planning/generic/MapManager.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cslibs_path_planning/generic/MapManager.hpp b/include/cslibs_path_planning/generic/MapManager.hpp
index d8432e9..2915add 100644
--- a/include/cslibs_path_planning/generic/MapManager.hpp
+++ b/include/cslibs_path_planning/generic/MapManager.hpp
@@ -501,7 +501,7 @@ public:
 
 
     DynamicDirectionalStateSpaceManager()
-        : chunks_w(0), chunks_h(0)
+        : w(0), h(0), map_(NULL), chunks_w(0), chunks_h(0)
     {
         chunk_size = 32;
         theta_slots = 32;
-- 
2.43.0


From 57de50ddd8ee28fa7f2ac8b9d698185bc7f9971e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:13 +0000
Subject: [PATCH 25/59] fix: the end of a line was not checked to be free or
 unknown

---
 include/cslibs_path_planning/generic/MapManager.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cslibs_path_planning/generic/MapManager.hpp b/include/cslibs_path_planning/generic/MapManager.hpp
index 2915add..71575aa 100644
--- a/include/cslibs_path_planning/generic/MapManager.hpp
+++ b/include/cslibs_path_planning/generic/MapManager.hpp
@@ -693,7 +693,7 @@ public:
             }
         }
 
-        return isFreeOrUnknown(sx,sy,theta);
+        return isFreeOrUnknown(ex,ey,theta);
     }
 
 
-- 
2.43.0


From c9a763e13015ba4d74353c275146b1a1a215aec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:13 +0000
Subject: [PATCH 26/59] fix: lines leaving the map by more than the padding
 were not checked for obstacles

---
 include/cslibs_path_planning/common/Bresenham2d.h   | 8 ++++++++
 include/cslibs_path_planning/generic/MapManager.hpp | 6 +++---
 src/common/Bresenham2d.cpp                          | 7 ++++++-
 3 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/include/cslibs_path_planning/common/Bresenham2d.h b/include/cslibs_path_planning/common/Bresenham2d.h
index 857aefb..a37de81 100644
--- a/include/cslibs_path_planning/common/Bresenham2d.h
+++ b/include/cslibs_path_planning/common/Bresenham2d.h
@@ -43,6 +43,14 @@ public:
      */
     void setGrid(const GridMap2d *map, int start_x, int start_y, int end_x, int end_y );
 
+    /**
+     * @brief Set start and end of a line that is not bound to a map
+     * Only next() and coordinates() can be used afterwards.
+     * @param start Start of the line (grid coordinates)
+     * @param end End of the line (grid coordinates)
+     */
+    void setGrid(int start_x, int start_y, int end_x, int end_y );
+
     /**
      * @brief Select next cell
      * @return False if we reached the end
diff --git a/include/cslibs_path_planning/generic/MapManager.hpp b/include/cslibs_path_planning/generic/MapManager.hpp
index 71575aa..a371118 100644
--- a/include/cslibs_path_planning/generic/MapManager.hpp
+++ b/include/cslibs_path_planning/generic/MapManager.hpp
@@ -650,7 +650,7 @@ public:
     }
 
     bool isFree(const double sx, const double sy, const double ex, const double ey) const {
-        bresenham.setGrid(map_, std::floor(sx + padding), std::floor(sy + padding), std::floor(ex + padding),std::floor(ey + padding));
+        bresenham.setGrid(std::floor(sx + padding), std::floor(sy + padding), std::floor(ex + padding),std::floor(ey + padding));
 
         double theta = std::atan2(ey-sy,ex-sx);
 
@@ -673,7 +673,7 @@ public:
     }
 
     bool isFreeOrUnknown(const double sx, const double sy, const double ex, const double ey) const {
-        bresenham.setGrid(map_, std::floor(sx + padding), std::floor(sy + padding), std::floor(ex + padding),std::floor(ey + padding));
+        bresenham.setGrid(std::floor(sx + padding), std::floor(sy + padding), std::floor(ex + padding),std::floor(ey + padding));
 
         double theta = std::atan2(ey-sy,ex-sx);
 
@@ -698,7 +698,7 @@ public:
 
 
     bool isOccupied(const double sx, const double sy, const double ex, const double ey) const {
-        bresenham.setGrid(map_, std::floor(sx + padding), std::floor(sy + padding), std::floor(ex + padding),std::floor(ey + padding));
+        bresenham.setGrid(std::floor(sx + padding), std::floor(sy + padding), std::floor(ex + padding),std::floor(ey + padding));
 
         double theta = std::atan2(ey-sy,ex-sx);
 
diff --git a/src/common/Bresenham2d.cpp b/src/common/Bresenham2d.cpp
index 5020449..ec5919e 100644
--- a/src/common/Bresenham2d.cpp
+++ b/src/common/Bresenham2d.cpp
@@ -49,8 +49,13 @@ void Bresenham2d::setGrid(const GridMap2d *map, int start_x, int start_y, int en
         return;
     }
 
-    // Start/end in cell coordinates
     map_ = map;
+    setGrid(start_x, start_y, end_x, end_y);
+}
+
+void Bresenham2d::setGrid(int start_x, int start_y, int end_x, int end_y)
+{
+    // Start/end in cell coordinates
     x0_ = start_x; y0_ = start_y;
     x1_ = end_x; y1_ = end_y;
 
-- 
2.43.0


From 93d64aff4e940e685a067f5e373affced443fd5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:13 +0000
Subject: [PATCH 27/59] fix: line ends left of or below the map were taken for
 cells of the map

---
 include/cslibs_path_planning/generic/MapManager.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/cslibs_path_planning/generic/MapManager.hpp b/include/cslibs_path_planning/generic/MapManager.hpp
index a371118..ecc5017 100644
--- a/include/cslibs_path_planning/generic/MapManager.hpp
+++ b/include/cslibs_path_planning/generic/MapManager.hpp
@@ -669,7 +669,7 @@ public:
             }
         }
 
-        return isFree(ex,ey,theta);
+        return isFree((int) std::floor(ex),(int) std::floor(ey),theta);
     }
 
     bool isFreeOrUnknown(const double sx, const double sy, const double ex, const double ey) const {
@@ -693,7 +693,7 @@ public:
             }
         }
 
-        return isFreeOrUnknown(ex,ey,theta);
+        return isFreeOrUnknown((int) std::floor(ex),(int) std::floor(ey),theta);
     }
 
 
@@ -717,7 +717,7 @@ public:
             }
         }
 
-        return isOccupied(ex,ey,theta);
+        return isOccupied((int) std::floor(ex),(int) std::floor(ey),theta);
     }
 
     bool isFree(int x, int y, double theta) const {
-- 
2.43.0


From c65e31463a0e6a77b84cd4ca8cb5869c3d5e5a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:54 +0000
Subject: [PATCH 28/59] fix: analytic expansion of the start node searched for
 its predecessors

---
 include/cslibs_path_planning/generic/SearchAlgorithm.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/cslibs_path_planning/generic/SearchAlgorithm.hpp b/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
index 2a2fbe4..1f97261 100644
--- a/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
+++ b/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
@@ -595,10 +595,8 @@ protected:
                 PathT expansion;
                 AnalyticExpansionType::getPath(&expansion);
 
-                NodeT tmp = *current;
-                tmp.theta = expansion.begin()->theta;
-
-                PathT path = backtrack(&tmp);
+                PathT path = backtrack(current);
+                path.back().theta = expansion.begin()->theta;
                 path.insert(path.end(), expansion.begin(), expansion.end());
                 result = path;
                 return true;
-- 
2.43.0


From fee7b0d56129e1afbfdf1527d79c9215fc99f792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:54 +0000
Subject: [PATCH 29/59] fix: the search overwrote the goal pose once it came
 across the goal's node

---
 .../cslibs_path_planning/generic/SearchAlgorithm.hpp   | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/cslibs_path_planning/generic/SearchAlgorithm.hpp b/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
index 1f97261..0c62e94 100644
--- a/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
+++ b/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
@@ -461,6 +461,7 @@ protected:
 
         start.clear();
         goal.clear();
+        goal_nodes.clear();
         heuristic_goal = NULL;
     }
 
@@ -565,13 +566,15 @@ protected:
         } catch(const OutsideMapException& e) {
             outside = true;
         }
+        // the goal is copied, since the search changes the nodes of the map
+        goal_nodes.reserve(goal_poses.size());
         for(NodeT* g : goal_poses) {
             try {
                 if(!map_.isOccupied(g)) {
-                    // put start node in open data structure
-                    g->theta = pose.theta;
+                    goal_nodes.push_back(*g);
+                    goal_nodes.back().theta = pose.theta;
 
-                    goal.insert(g);
+                    goal.insert(&goal_nodes.back());
                 }
 
             } catch(const OutsideMapException& e) {
@@ -739,6 +742,7 @@ protected:
     MapManager map_;
     std::set<const NodeT*> start;
     std::set<const NodeT*> goal;
+    std::vector<NodeT> goal_nodes;
 
     const PointT* heuristic_goal;
 
-- 
2.43.0


From 81dfc987d717761b9635f3ba3a644e7e15de839b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:54 +0000
Subject: [PATCH 30/59] fix: forward only steering left the number of straight
 parts uninitialised

---
 include/cslibs_path_planning/generic/SteeringNeighborhood.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cslibs_path_planning/generic/SteeringNeighborhood.hpp b/include/cslibs_path_planning/generic/SteeringNeighborhood.hpp
index 2400b66..c898dbe 100644
--- a/include/cslibs_path_planning/generic/SteeringNeighborhood.hpp
+++ b/include/cslibs_path_planning/generic/SteeringNeighborhood.hpp
@@ -120,6 +120,7 @@ struct SteeringNeighborhood :
     template <class NodeType>
     static double advance(const NodeType* reference, SearchOptions& so, int i, int step, double& x_, double& y_, double& theta_, bool& forward_, int& steering_angle_, char& custom, double map_rotation) {
         forward_ = (i < 3) ;
+        custom = 0;
         bool initial = reference->depth < 1;
 
         if(initial &&  reference->forward != forward_) {
-- 
2.43.0


From eb2785cfbcae39b46f450d69c1a9057e228d9a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:19 +0000
Subject: [PATCH 31/59] fix: obstacle heuristic looked up obstacles shifted by
 the padding of the map

---
 include/cslibs_path_planning/generic/Heuristics.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cslibs_path_planning/generic/Heuristics.hpp b/include/cslibs_path_planning/generic/Heuristics.hpp
index bf17462..a1f138d 100644
--- a/include/cslibs_path_planning/generic/Heuristics.hpp
+++ b/include/cslibs_path_planning/generic/Heuristics.hpp
@@ -339,7 +339,7 @@ struct HeuristicHolonomicObstacles {
 
         for(unsigned int row = 0; row < h; ++row) {
             for(unsigned int col = 0; col < w; ++col) {
-                if(!map->isOccupied(col, row, 0)) {
+                if(!map->isOccupied((int) col - padding, (int) row - padding, 0)) {
                     cost(col, row) = std::numeric_limits<double>::max();
                 } else {
                     cost(col, row) = std::numeric_limits<double>::infinity();
-- 
2.43.0


From 1f22f030acae31030a32df5ceed83df155a2de50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:20 +0000
Subject: [PATCH 32/59] fix: obstacle heuristic ignored the cells at the border
 of the map

---
 .../generic/Heuristics.hpp                    | 31 ++++++++++++-------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/include/cslibs_path_planning/generic/Heuristics.hpp b/include/cslibs_path_planning/generic/Heuristics.hpp
index a1f138d..cbcfe4f 100644
--- a/include/cslibs_path_planning/generic/Heuristics.hpp
+++ b/include/cslibs_path_planning/generic/Heuristics.hpp
@@ -322,6 +322,13 @@ struct HeuristicHolonomicObstacles {
         return costs[(r) * w + (c)];
     }
 
+    static inline double neighborCost(int c, int r) {
+        if(c < 0 || r < 0 || c >= (int) w || r >= (int) h) {
+            return std::numeric_limits<double>::infinity();
+        }
+        return cost(c, r);
+    }
+
     template <class Map, class NodeType>
     static void setMap(const Map* map, const NodeType& goal) {
         delete [] costs;
@@ -356,16 +363,16 @@ struct HeuristicHolonomicObstacles {
             ++iteration;
             change = false;
 
-            for(unsigned int row = 1; row < h-1; ++row) {
-                for(unsigned int col = 1; col < w-1; ++col) {
+            for(unsigned int row = 0; row < h; ++row) {
+                for(unsigned int col = 0; col < w; ++col) {
                     double& d = cost(col, row);
                     bool free = d != std::numeric_limits<double>::infinity();
 
                     if(free) {
-                        double d1 = cost(col-1, row  ) + HORIZ;
-                        double d2 = cost(col-1, row-1) + DIAG;
-                        double d3 = cost(col,   row-1) + HORIZ;
-                        double d4 = cost(col+1, row-1) + DIAG;
+                        double d1 = neighborCost(col-1, row  ) + HORIZ;
+                        double d2 = neighborCost(col-1, row-1) + DIAG;
+                        double d3 = neighborCost(col,   row-1) + HORIZ;
+                        double d4 = neighborCost(col+1, row-1) + DIAG;
 
                         double dmin = std::min(d1, std::min(d2, std::min(d3, d4)));
 
@@ -377,16 +384,16 @@ struct HeuristicHolonomicObstacles {
                 }
             }
 
-            for(int row = h-2; row >= 1; --row) {
-                for(int col = w-2; col >= 1; --col) {
+            for(int row = (int) h-1; row >= 0; --row) {
+                for(int col = (int) w-1; col >= 0; --col) {
                     double& d = cost(col, row);
                     bool free = d != std::numeric_limits<double>::infinity();
 
                     if(free) {
-                        double d1 = cost(col+1, row  ) + HORIZ;
-                        double d2 = cost(col-1, row+1) + DIAG;
-                        double d3 = cost(col,   row+1) + HORIZ;
-                        double d4 = cost(col+1, row+1) + DIAG;
+                        double d1 = neighborCost(col+1, row  ) + HORIZ;
+                        double d2 = neighborCost(col-1, row+1) + DIAG;
+                        double d3 = neighborCost(col,   row+1) + HORIZ;
+                        double d4 = neighborCost(col+1, row+1) + DIAG;
 
                         double dmin = std::min(d1, std::min(d2, std::min(d3, d4)));
 
-- 
2.43.0


From 0bed2de5ef10908693be7411e78afafa40bcb80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:50 +0000
Subject: [PATCH 33/59] fix: the maximum arc of curves was uninitialised until
 it was set

---
 src/ReedsShepp/CurveGenerator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ReedsShepp/CurveGenerator.cpp b/src/ReedsShepp/CurveGenerator.cpp
index cd8d077..9920b27 100644
--- a/src/ReedsShepp/CurveGenerator.cpp
+++ b/src/ReedsShepp/CurveGenerator.cpp
@@ -9,6 +9,7 @@
 #include <cslibs_path_planning/ReedsShepp/CurveGenerator.h>
 
 /// SYSTEM
+#include <limits>
 #include <stdio.h>
 #include <typeinfo>
 
@@ -18,6 +19,7 @@ CurveGenerator::CurveGenerator()
     : m_use_map_cost(false), m_min_cell_cost(10),
       m_circle_radius(2.0), m_max_waypoint_distance(1.0),
       m_cost_forwards(1.0), m_cost_backwards(1.0), m_cost_curve(1.0), m_cost_straight(1.0),
+      m_max_curve_arc(std::numeric_limits<double>::infinity()),
       m_trace(-1)
 {
 }
-- 
2.43.0


From 8a6d44a1a67feee526bc5bd5d6d3518971df943b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:50 +0000
Subject: [PATCH 34/59] fix: parsing a curve pattern returned true for errors
 and false for success

---
 src/ReedsShepp/CurveGenerator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ReedsShepp/CurveGenerator.cpp b/src/ReedsShepp/CurveGenerator.cpp
index 9920b27..db81baa 100644
--- a/src/ReedsShepp/CurveGenerator.cpp
+++ b/src/ReedsShepp/CurveGenerator.cpp
@@ -176,7 +176,7 @@ bool CurveGenerator::parse(const std::string& sequence, std::ostream& out)
             out << " ";
         out << "^" << std::endl;
     }
-    return error;
+    return !error;
 }
 
 Curve* CurveGenerator::find_path(const Pose2d& start, const Pose2d& goal, const GridMap2d* map, bool ignore_obstacles)
-- 
2.43.0


From 377645badda64b16798d1a0183725fde910494d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:50 +0000
Subject: [PATCH 35/59] fix: a curve pattern starting with a subsequence read a
 segment that does not exist

---
 src/ReedsShepp/CurveGenerator.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ReedsShepp/CurveGenerator.cpp b/src/ReedsShepp/CurveGenerator.cpp
index db81baa..fc9bcb3 100644
--- a/src/ReedsShepp/CurveGenerator.cpp
+++ b/src/ReedsShepp/CurveGenerator.cpp
@@ -96,6 +96,11 @@ bool CurveGenerator::parse(const std::string& sequence, std::ostream& out)
                 error = true;
                 break;
             case 'b': {
+                if(new_curve.count() == 0) {
+                    out << "RS Generator: error parsing" << std::endl << sequence << ", no segment for this subsequence" << std::endl;
+                    error = true;
+                    break;
+                }
                 const CurveSegment& cs = new_curve.get_segment(new_curve.count() - 1);
 //                CurveSegment* cs = m_sequences[m_count].at(m_sequences[m_count].size()-1);
 
-- 
2.43.0


From 0a165e8f62c702b3c2ebd5ec2d7a231ca7e50330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:50 +0000
Subject: [PATCH 36/59] fix: curve patterns starting or ending with a line hit
 an assertion

---
 src/ReedsShepp/Curve.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ReedsShepp/Curve.cpp b/src/ReedsShepp/Curve.cpp
index 67c4a0f..07c3dab 100644
--- a/src/ReedsShepp/Curve.cpp
+++ b/src/ReedsShepp/Curve.cpp
@@ -104,7 +104,8 @@ double Curve::check_if_admissible()
         return NOT_FREE;
     }
 
-    if(m_sequence.size() < 3) {
+    if(!dynamic_cast<CircleSegment*>(m_sequence.front()) || !dynamic_cast<CircleSegment*>(m_sequence.back())) {
+        // only sequences between two circles are supported
         return NOT_FREE;
     }
 
-- 
2.43.0


From 1b415d19137900d131134847d6bbc7dea815ab7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:11 +0000
Subject: [PATCH 37/59] fix: successive circles turning to the same side were
 joined with opposite headings

---
 src/ReedsShepp/Curve.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/ReedsShepp/Curve.cpp b/src/ReedsShepp/Curve.cpp
index 07c3dab..9306bc4 100644
--- a/src/ReedsShepp/Curve.cpp
+++ b/src/ReedsShepp/Curve.cpp
@@ -214,6 +214,11 @@ double Curve::handle_sequence_C3()
 
     assert(circle1 && circle2 && circle3);
 
+    if(circle1->get_orientation() == circle2->get_orientation() || circle2->get_orientation() == circle3->get_orientation()) {
+        // circles touching from outside have the same heading only if they turn to opposite sides
+        return NOT_FREE;
+    }
+
     if(!GeometryHelper::get_tangential_circle(*circle1, *circle2, *circle3, m_ignore_obstacles)) {
         return NOT_FREE;
     }
@@ -233,6 +238,12 @@ double Curve::handle_sequence_C4()
 
     assert(start && circle2 && circle3 && goal);
 
+    if(start->get_orientation() == circle2->get_orientation() || circle2->get_orientation() == circle3->get_orientation()
+            || circle3->get_orientation() == goal->get_orientation()) {
+        // circles touching from outside have the same heading only if they turn to opposite sides
+        return NOT_FREE;
+    }
+
     if(!GeometryHelper::get_tangential_double_circle(*start, *circle2, *circle3, *goal, m_ignore_obstacles)) {
         return NOT_FREE;
     }
-- 
2.43.0


From b49a9ba7140e03eaf085a4a33e21ec8f2c01ba67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:11 +0000
Subject: [PATCH 38/59] fix: points on a line were up to twice the maximum
 distance apart

---
 src/ReedsShepp/LineSegment.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ReedsShepp/LineSegment.cpp b/src/ReedsShepp/LineSegment.cpp
index 72f8278..d86b3e8 100644
--- a/src/ReedsShepp/LineSegment.cpp
+++ b/src/ReedsShepp/LineSegment.cpp
@@ -12,6 +12,7 @@
 #include <cslibs_path_planning/common/MapMath.h>
 
 /// SYSTEM
+#include <cmath>
 #include <stdlib.h>
 
 using namespace std;
@@ -100,7 +101,8 @@ void LineSegment::reset_iteration()
 {
     m_iterating = true;
     m_output = 0;
-    m_segments = m_start.distance_to(m_end) / m_max_distance;
+    // ignore a rounding error of the length, a line without length has no points
+    m_segments = std::ceil(m_start.distance_to(m_end) / m_max_distance - 1e-4);
 }
 
 bool LineSegment::has_next()
-- 
2.43.0


From 39f2943744ed1bc76bc0264821b521317dd18224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:11 +0000
Subject: [PATCH 39/59] fix: points on a circle overshot its end or stopped up
 to a step before it

---
 src/ReedsShepp/CircleSegment.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ReedsShepp/CircleSegment.cpp b/src/ReedsShepp/CircleSegment.cpp
index a68aa16..e97b1be 100644
--- a/src/ReedsShepp/CircleSegment.cpp
+++ b/src/ReedsShepp/CircleSegment.cpp
@@ -288,12 +288,15 @@ void CircleSegment::compute_arc_length()
 
     int sign = m_arc_length >= 0 ? 1 : -1;
 
-    // each step should produce a distance of m_max_distance
+    // each step should produce a distance of at most m_max_distance
     // -> polar coordinates, calulate step in angle
     m_angle_step_size = m_max_distance / m_radius * sign;
 
-    // no of steps
-    m_steps = std::max(1, (int) std::abs(std::floor(m_arc_length / m_angle_step_size)));
+    // no of steps, the last one ends at the end of the arc
+    m_steps = std::ceil(m_arc_length / m_angle_step_size);
+    if(m_steps > 0) {
+        m_angle_step_size = m_arc_length / m_steps;
+    }
 }
 
 void CircleSegment::reset_iteration()
-- 
2.43.0


From 2a56af2ea1ea3186968fd2a0ace85809e67474a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:33 +0000
Subject: [PATCH 40/59] fix: curves were rejected if the unused part of a
 circle left the map

---
 src/ReedsShepp/CircleSegment.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ReedsShepp/CircleSegment.cpp b/src/ReedsShepp/CircleSegment.cpp
index e97b1be..0da065d 100644
--- a/src/ReedsShepp/CircleSegment.cpp
+++ b/src/ReedsShepp/CircleSegment.cpp
@@ -198,7 +198,8 @@ bool CircleSegment::test4Points(int cx, int cy, int x, int y, bool ignore_obstac
 
 bool CircleSegment::testPixel(int cx, int cy, int x, int y, bool ignore_obstacles)
 {
-    if(m_map->isInMap(x, y)) {
+    bool in_map = m_map->isInMap(x, y);
+    if(in_map || !ignore_obstacles) {
         float angle = atan2(y-cy, x-cx);
         bool on_segment = false;
 
@@ -228,6 +229,9 @@ bool CircleSegment::testPixel(int cx, int cy, int x, int y, bool ignore_obstacle
         }
 
         if(on_segment) {
+            if(!in_map) {
+                return false;
+            }
             m_weight += max(m_min_cell_cost, m_map->getValue(x, y));
             bool free = m_map->isFree(x, y);
             if(m_trace != -1) {
@@ -240,8 +244,6 @@ bool CircleSegment::testPixel(int cx, int cy, int x, int y, bool ignore_obstacle
                 return free;
             }
         }
-    } else {
-        return false;
     }
 
     return true;
-- 
2.43.0


From e0df49bface7cc1ac6f671b731645ce8c5532eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:01 +0000
Subject: [PATCH 41/59] fix: lines of curves could leave the map

---
 src/ReedsShepp/LineSegment.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ReedsShepp/LineSegment.cpp b/src/ReedsShepp/LineSegment.cpp
index d86b3e8..1840e9a 100644
--- a/src/ReedsShepp/LineSegment.cpp
+++ b/src/ReedsShepp/LineSegment.cpp
@@ -72,6 +72,9 @@ float LineSegment::weight(bool ignore_obstacles)
                 break;
             }
             path_cost += max(m_min_cell_cost, m_map->getValue(x0, y0));
+        } else if(!ignore_obstacles) {
+            is_free = false;
+            break;
         }
 
         if(x0==x1 && y0==y1) break;
-- 
2.43.0


From b3e8d59fb6fee3dd32a8f5eef234e52cc8aa18bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:17 +0000
Subject: [PATCH 42/59] fix: for very short arcs the whole circle was checked
 for obstacles

---
 src/ReedsShepp/CircleSegment.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ReedsShepp/CircleSegment.cpp b/src/ReedsShepp/CircleSegment.cpp
index 0da065d..da69d3e 100644
--- a/src/ReedsShepp/CircleSegment.cpp
+++ b/src/ReedsShepp/CircleSegment.cpp
@@ -200,11 +200,11 @@ bool CircleSegment::testPixel(int cx, int cy, int x, int y, bool ignore_obstacle
 {
     bool in_map = m_map->isInMap(x, y);
     if(in_map || !ignore_obstacles) {
-        float angle = atan2(y-cy, x-cx);
+        double angle = atan2(y-cy, x-cx);
         bool on_segment = false;
 
-        float start = NORMALIZE(m_angle_start);
-        float end = NORMALIZE(m_angle_end);
+        double start = NORMALIZE(m_angle_start);
+        double end = NORMALIZE(m_angle_end);
 
         bool increasing = m_angle_step_size > 0;//(m_arc_length > 0) ^ (m_direction == BACKWARD);
         bool decreasing = !increasing;
-- 
2.43.0


From c8d2b6ee34c9947cd31a0a9f5abd5d091540f553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:38 +0000
Subject: [PATCH 43/59] fix: arcs between two pixels of the circle were not
 checked for obstacles

---
 .../cslibs_path_planning/ReedsShepp/CircleSegment.h  |  1 +
 src/ReedsShepp/CircleSegment.cpp                     | 12 ++++++++++++
 2 files changed, 13 insertions(+)

diff --git a/include/cslibs_path_planning/ReedsShepp/CircleSegment.h b/include/cslibs_path_planning/ReedsShepp/CircleSegment.h
index 468f5b7..f5b969f 100644
--- a/include/cslibs_path_planning/ReedsShepp/CircleSegment.h
+++ b/include/cslibs_path_planning/ReedsShepp/CircleSegment.h
@@ -116,6 +116,7 @@ private:
     bool test8Points(int cx, int cy, int x, int y, bool ignore_obstacles);
     bool test4Points(int cx, int cy, int x, int y, bool ignore_obstacles);
     bool testPixel(int cx, int cy, int x, int y, bool ignore_obstacles);
+    bool isFree(const Point2d& point) const;
 
     ORIENTATION m_orientation;
 
diff --git a/src/ReedsShepp/CircleSegment.cpp b/src/ReedsShepp/CircleSegment.cpp
index da69d3e..9a4b9ba 100644
--- a/src/ReedsShepp/CircleSegment.cpp
+++ b/src/ReedsShepp/CircleSegment.cpp
@@ -113,6 +113,10 @@ float CircleSegment::weight(bool ignore_obstacles)
 {
     m_weight = 0;
     bool is_free = checkCircle(m_center.x, m_center.y, m_radius, ignore_obstacles);
+    if(is_free && !ignore_obstacles) {
+        // a short arc may lie between two pixels of the circle
+        is_free = isFree(get_start_point()) && isFree(get_end_point());
+    }
 
     if(ignore_obstacles || is_free) {
         float cost = (m_direction == CurveSegment::BACKWARD) ? m_cost_backwards : m_cost_forwards;
@@ -249,6 +253,14 @@ bool CircleSegment::testPixel(int cx, int cy, int x, int y, bool ignore_obstacle
     return true;
 }
 
+bool CircleSegment::isFree(const Point2d& point) const
+{
+    int x = std::floor(point.x);
+    int y = std::floor(point.y);
+
+    return m_map->isInMap(x, y) && m_map->isFree(x, y);
+}
+
 void CircleSegment::compute_arc_length()
 {
     float arc_angle = NORMALIZE(m_angle_end - m_angle_start);
-- 
2.43.0


From 4336b70521cb4633364b876a4ee597b99e233b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:15 +0000
Subject: [PATCH 44/59] fix: gain of approach goals was not 1 for the direct
 approach and 2 at the maximum angle

---
 src/sampling/CentroidRadiusGoalRegion.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/sampling/CentroidRadiusGoalRegion.cpp b/src/sampling/CentroidRadiusGoalRegion.cpp
index 4a370d4..d82f609 100644
--- a/src/sampling/CentroidRadiusGoalRegion.cpp
+++ b/src/sampling/CentroidRadiusGoalRegion.cpp
@@ -52,13 +52,14 @@ bool CentroidRadiusGoalRegion::getNextGoal (Pose2d &goal, double& gain)
   goal.y = center_.y - radius_ * sin (theta_);
   goal.theta = theta_;
 
+  // Direct approach 1.0 -> approach from max angle 2.0
+  gain = 1.0;
+  if (samples_num_ > 1)
+    gain += fabs (2.0*counter_ / (samples_num_-1) - 1.0);
+
   counter_++;
   theta_ = MathHelper::AngleClamp (theta_ + theta_step_);
 
-  // Direct approach 1.0 -> approach from max angle 2.0
-  int32_t diff = (int32_t)(counter_ - (samples_num_/2));
-  gain = 1.0 + 2.0*abs (diff) / samples_num_;
-
   return true;
 }
 
-- 
2.43.0


From afe9d0a68b095a05918ba856ed9ac0466917b661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:57 +0000
Subject: [PATCH 45/59] fix: planners searched with the cell size of the map
 another planner was given last

---
 include/cslibs_path_planning/generic/SearchAlgorithm.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/cslibs_path_planning/generic/SearchAlgorithm.hpp b/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
index 0c62e94..5ea7e92 100644
--- a/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
+++ b/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
@@ -375,6 +375,9 @@ protected:
     PathT findPathImp(const GoalTest& goal_test,
                       boost::function<void()> intermission)
     {
+        // another planner with a different map might share the neighborhood
+        NeighborhoodType::setResolution(map_.getResolution());
+
         if(time_limit_ > 0.0) {
             auto now = std::chrono::high_resolution_clock::now();
             std::chrono::milliseconds duration_milli{(int64_t) (time_limit_ * 1e3)};
-- 
2.43.0


From 4c00e74bd6ff45586157a32e052408a2fec113a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:03 +0000
Subject: [PATCH 46/59] fix: steering planners of different threads shared the
 cell size

---
 .../generic/DynamicSteeringNeighborhood.h                 | 4 ++--
 .../generic/NonHolonomicNeighborhood.hpp                  | 8 ++++----
 src/generic/DynamicSteeringNeighborhood.cpp               | 4 ++--
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/cslibs_path_planning/generic/DynamicSteeringNeighborhood.h b/include/cslibs_path_planning/generic/DynamicSteeringNeighborhood.h
index 2e964b4..e1f3b13 100644
--- a/include/cslibs_path_planning/generic/DynamicSteeringNeighborhood.h
+++ b/include/cslibs_path_planning/generic/DynamicSteeringNeighborhood.h
@@ -15,10 +15,10 @@ struct DynamicSteeringNeighborhood : public NeighborhoodBase
         typedef SteeringNode<PointT> NodeType;
     };
 
-    static double resolution;
+    static thread_local double resolution;
     static bool reversed;
     static double distance_step;
-    static double distance_step_pixel;
+    static thread_local double distance_step_pixel;
 
     static int MAX_STEER_ANGLE;
     static double STEER_DELTA;
diff --git a/include/cslibs_path_planning/generic/NonHolonomicNeighborhood.hpp b/include/cslibs_path_planning/generic/NonHolonomicNeighborhood.hpp
index 409b0b6..17e3f68 100644
--- a/include/cslibs_path_planning/generic/NonHolonomicNeighborhood.hpp
+++ b/include/cslibs_path_planning/generic/NonHolonomicNeighborhood.hpp
@@ -45,9 +45,9 @@ struct NonHolonomicNeighborhoodBase : public NeighborhoodBase
 
     static constexpr double DELTA_THETA = STEER_ANGLE / 10.0 * M_PI / 180.0;
 
-    static double resolution;
+    static thread_local double resolution;
     static constexpr double distance_step = distance / 100.0;
-    static double distance_step_pixel;
+    static thread_local double distance_step_pixel;
 
     static double setResolution(double res) {
         resolution = res;
@@ -225,10 +225,10 @@ struct NonHolonomicNeighborhoodBase : public NeighborhoodBase
 };
 
 template  <int distance, int steerangle, int moves, bool reversed, int straight_dir_switch, class I>
-double NonHolonomicNeighborhoodBase<distance, steerangle,moves,reversed,straight_dir_switch,I>::resolution = 0;
+thread_local double NonHolonomicNeighborhoodBase<distance, steerangle,moves,reversed,straight_dir_switch,I>::resolution = 0;
 
 template  <int distance, int steerangle, int moves, bool reversed, int straight_dir_switch, class I>
-double NonHolonomicNeighborhoodBase<distance, steerangle,moves,reversed,straight_dir_switch,I>::distance_step_pixel = 0;
+thread_local double NonHolonomicNeighborhoodBase<distance, steerangle,moves,reversed,straight_dir_switch,I>::distance_step_pixel = 0;
 
 
 
diff --git a/src/generic/DynamicSteeringNeighborhood.cpp b/src/generic/DynamicSteeringNeighborhood.cpp
index 73958c3..23c8aa9 100644
--- a/src/generic/DynamicSteeringNeighborhood.cpp
+++ b/src/generic/DynamicSteeringNeighborhood.cpp
@@ -4,10 +4,10 @@
 using namespace lib_path;
 
 
-double DynamicSteeringNeighborhood::resolution = 1;
+thread_local double DynamicSteeringNeighborhood::resolution = 1;
 bool DynamicSteeringNeighborhood::reversed = false;
 double DynamicSteeringNeighborhood::distance_step = 0.4;
-double DynamicSteeringNeighborhood::distance_step_pixel = 1;
+thread_local double DynamicSteeringNeighborhood::distance_step_pixel = 1;
 
 int DynamicSteeringNeighborhood::MAX_STEER_ANGLE = 60;
 double DynamicSteeringNeighborhood::STEER_DELTA = 15;
-- 
2.43.0


From bff990d159d9d7ddedd2d30d3b1d675110d6645c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:35 +0000
Subject: [PATCH 47/59] fix: footprint queries of different threads on one map
 interfered

---
 src/common/CollisionGridMap2d.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/common/CollisionGridMap2d.cpp b/src/common/CollisionGridMap2d.cpp
index 7473f36..7670419 100644
--- a/src/common/CollisionGridMap2d.cpp
+++ b/src/common/CollisionGridMap2d.cpp
@@ -192,9 +192,9 @@ bool CollisionGridMap2d::isOccupiedRotated(const unsigned int x, const unsigned
     }
 
     // check boundary
-    RobotArea* a = areas_[angle2slot(theta)];
-    a->setPosition(x,y);
-    bool occ = isAreaOccupied(*a);
+    RobotArea a(*areas_[angle2slot(theta)]);
+    a.setPosition(x,y);
+    bool occ = isAreaOccupied(a);
     return occ;
 }
 
@@ -205,9 +205,9 @@ bool CollisionGridMap2d::isFreeRotated(const unsigned int x, const unsigned int
     }
 
     // check boundary
-    RobotArea* a = areas_[angle2slot(theta)];
-    a->setPosition(x,y);
-    bool free = isAreaFree(*a);
+    RobotArea a(*areas_[angle2slot(theta)]);
+    a.setPosition(x,y);
+    bool free = isAreaFree(a);
     return free;
 }
 
@@ -222,8 +222,8 @@ bool CollisionGridMap2d::isNoInformationRotated(const unsigned int x, const unsi
     }
 
     // check boundary
-    RobotArea* a = areas_[angle2slot(theta)];
-    a->setPosition(x,y);
-    bool no_info = isAreaNoInformation(*a);
+    RobotArea a(*areas_[angle2slot(theta)]);
+    a.setPosition(x,y);
+    bool no_info = isAreaNoInformation(a);
     return no_info;
 }
-- 
2.43.0


From f05284f9bf9beac93f325b58f517d51e52f21b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:06 +0000
Subject: [PATCH 48/59] fix: searches of different threads shared the counter
 for progress callbacks

---
 include/cslibs_path_planning/generic/Intermission.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/cslibs_path_planning/generic/Intermission.hpp b/include/cslibs_path_planning/generic/Intermission.hpp
index 77c462b..1d556ec 100644
--- a/include/cslibs_path_planning/generic/Intermission.hpp
+++ b/include/cslibs_path_planning/generic/Intermission.hpp
@@ -15,8 +15,8 @@ template <int steps, int start_step = 0>
 struct CallbackIntermission {
     template <class Callback, class A>
     static void callAndCopy(Callback& c, const A& from, A& to) {
-        static int next = start_step;
-        static bool start = true;
+        static thread_local int next = start_step;
+        static thread_local bool start = true;
         if(--next <= 0 || start) {
             to = from;
             c();
@@ -27,8 +27,8 @@ struct CallbackIntermission {
     }
     template <class Callback>
     static void call(Callback& c) {
-        static int next = start_step;
-        static bool start = true;
+        static thread_local int next = start_step;
+        static thread_local bool start = true;
         if(--next <= 0 || start) {
             c();
             if(next > 0) return;
-- 
2.43.0


From 7d58ad998cc8782b4927a9dac84e4ab35375f68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:06 +0000
Subject: [PATCH 49/59] fix: analytic expansions depended on the goal distance
 of earlier searches

---
 .../cslibs_path_planning/generic/ReedsSheppExpansion.hpp   | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/cslibs_path_planning/generic/ReedsSheppExpansion.hpp b/include/cslibs_path_planning/generic/ReedsSheppExpansion.hpp
index 02b477c..361ff28 100644
--- a/include/cslibs_path_planning/generic/ReedsSheppExpansion.hpp
+++ b/include/cslibs_path_planning/generic/ReedsSheppExpansion.hpp
@@ -42,6 +42,13 @@ struct ReedsSheppExpansion
     bool expand(const T* start, const T* goal, const Map* map_ptr) {
         forward = start->forward;
 
+        if(!start->prev) {
+            // a new search begins
+            current = N;
+            n = N;
+            initial_cost = -1.0;
+        }
+
         if(!exp_forward) {
             if(forward) {
                 return false;
-- 
2.43.0


From 4c0710bd9b360349ebf31376129f05fcfd9edc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:06 +0000
Subject: [PATCH 50/59] fix: steering planners of different threads shared one
 analytic expansion

---
 include/cslibs_path_planning/generic/ReedsSheppExpansion.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cslibs_path_planning/generic/ReedsSheppExpansion.hpp b/include/cslibs_path_planning/generic/ReedsSheppExpansion.hpp
index 361ff28..0ea164d 100644
--- a/include/cslibs_path_planning/generic/ReedsSheppExpansion.hpp
+++ b/include/cslibs_path_planning/generic/ReedsSheppExpansion.hpp
@@ -132,7 +132,7 @@ struct ReedsSheppExpansion
 
     static ReedsSheppExpansion& instance()
     {
-        static ReedsSheppExpansion inst;
+        static thread_local ReedsSheppExpansion inst;
         return inst;
     }
 
-- 
2.43.0


From 794106aa758baf83cf06bf683a7dfdaf9a7ee233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:20 +0000
Subject: [PATCH 51/59] fix: the last motion before a direction change was not
 checked to be straight

---
 .../generic/DynamicSteeringNeighborhood.h                  | 7 ++-----
 .../cslibs_path_planning/generic/SteeringNeighborhood.hpp  | 7 ++-----
 2 files changed, 4 insertions(+), 10 deletions(-)

diff --git a/include/cslibs_path_planning/generic/DynamicSteeringNeighborhood.h b/include/cslibs_path_planning/generic/DynamicSteeringNeighborhood.h
index e1f3b13..f7646d0 100644
--- a/include/cslibs_path_planning/generic/DynamicSteeringNeighborhood.h
+++ b/include/cslibs_path_planning/generic/DynamicSteeringNeighborhood.h
@@ -242,7 +242,8 @@ struct DynamicSteeringNeighborhood : public NeighborhoodBase
                 int straight_dir_switch = 1;//std::round(2.0 / distance_step);
                 const NodeType* test = reference;
                 for(int straight_parts = 0; straight_parts < straight_dir_switch - 1; ++straight_parts) {
-                    if(!test->prev) {
+                    // the steering angle of a node belongs to the motion that leads to it
+                    if(!test->prev || std::abs(test->steering_angle) > max_steer_angle_for_turn) {
                         return -1;
                     }
 
@@ -251,10 +252,6 @@ struct DynamicSteeringNeighborhood : public NeighborhoodBase
                         throw std::logic_error("cannot cast prev");
                         return -1;
                     }
-
-                    if(std::abs(test->steering_angle) > max_steer_angle_for_turn) {
-                        return -1;
-                    }
                 }
                 custom = straight_dir_switch - 1;
 
diff --git a/include/cslibs_path_planning/generic/SteeringNeighborhood.hpp b/include/cslibs_path_planning/generic/SteeringNeighborhood.hpp
index c898dbe..6fdfa59 100644
--- a/include/cslibs_path_planning/generic/SteeringNeighborhood.hpp
+++ b/include/cslibs_path_planning/generic/SteeringNeighborhood.hpp
@@ -238,7 +238,8 @@ struct SteeringNeighborhood :
 
                 const NodeType* test = reference;
                 for(int straight_parts = 0; straight_parts < straight_dir_switch - 1; ++straight_parts) {
-                    if(!test->prev) {
+                    // the steering angle of a node belongs to the motion that leads to it
+                    if(!test->prev || std::abs(test->steering_angle) > max_steer_angle_for_turn) {
                         return -1;
                     }
 
@@ -247,10 +248,6 @@ struct SteeringNeighborhood :
                         throw std::logic_error("cannot cast prev");
                         return -1;
                     }
-
-                    if(std::abs(test->steering_angle) > max_steer_angle_for_turn) {
-                        return -1;
-                    }
                 }
                 custom = straight_dir_switch - 1;
 
-- 
2.43.0


From 49a635882ae1c453b5185537ca4c2cf07365fe9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:23 +0000
Subject: [PATCH 52/59] fix: straight parts demanded after a direction change
 could be driven as curves

---
 .../generic/SteeringNeighborhood.hpp                | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/cslibs_path_planning/generic/SteeringNeighborhood.hpp b/include/cslibs_path_planning/generic/SteeringNeighborhood.hpp
index 6fdfa59..5c211f9 100644
--- a/include/cslibs_path_planning/generic/SteeringNeighborhood.hpp
+++ b/include/cslibs_path_planning/generic/SteeringNeighborhood.hpp
@@ -130,12 +130,6 @@ struct SteeringNeighborhood :
 
         int max_steer_angle_for_turn = 0;
 
-        if(reference->custom > 0) {
-            // if custom flag is positive, we need to go straight
-            if(std::abs(reference->steering_angle) > max_steer_angle_for_turn) {
-                return -1;
-            }
-        }
 //        if(!reversed) {
 //            if(initial) {
 //                // if we begin at the start and go backwards, we add a special straight segment here
@@ -208,6 +202,13 @@ struct SteeringNeighborhood :
             steering_angle = -MAX_STEER_ANGLE;
         }
 
+        if(reference->custom > 0) {
+            // if custom flag is positive, we need to go straight
+            if(std::abs(steering_angle) > max_steer_angle_for_turn) {
+                return -1;
+            }
+        }
+
         //        cost *= std::abs(steering_angle) / MAX_STEER_ANGLE * 1.1;
 
         // check driving direction
-- 
2.43.0


From a61700380893355db25126f099608f3e3ff8e14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:09 +0000
Subject: [PATCH 53/59] fix: the sampling planner ignored connected goals with
 a cost of 999999 or more

---
 src/sampling/SamplingPlanner.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sampling/SamplingPlanner.cpp b/src/sampling/SamplingPlanner.cpp
index e666ecf..c9d81ba 100644
--- a/src/sampling/SamplingPlanner.cpp
+++ b/src/sampling/SamplingPlanner.cpp
@@ -35,7 +35,7 @@ Curve* SamplingPlanner::createPath(const Pose2d& start, GoalRegion *region, int
   Pose2d goal;
   Curve* best_curve=0;
   double gain = 1.0;
-  double min_cost = 999999;
+  double min_cost = DBL_MAX;
   while (region->getNextGoal(goal, gain)) {
     Pose2d goal_map = pos2map(goal, *map_);
     //std::cout << "goal map pose "<<goal_map.x << " "<<goal_map.y << " "<<goal_map.theta*180.0/M_PI<<"deg" << std::endl;
-- 
2.43.0


From 57698b5df964a2ee570711a1a670b2e5a0834ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:50 +0000
Subject: [PATCH 54/59] fix: grid A* kept nodes for the old size of a map that
 was resized in place

---
 include/cslibs_path_planning/a_star/AStar.h |  5 +++++
 src/a_star/AStar.cpp                        | 12 +++++++++---
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/include/cslibs_path_planning/a_star/AStar.h b/include/cslibs_path_planning/a_star/AStar.h
index 475fd7e..df604ae 100644
--- a/include/cslibs_path_planning/a_star/AStar.h
+++ b/include/cslibs_path_planning/a_star/AStar.h
@@ -102,6 +102,11 @@ private:
 	unsigned char getMapValue(const waypoint_t& waypoint);
 
 	OpenList* mNodesList;
+
+    /// Map size the node list was created for
+    unsigned int mNodesWidth;
+    unsigned int mNodesHeight;
+
 	static const int mNeighborCount = 8;
 	neighbor_t mNeighbors[mNeighborCount];
     GridMap2d* mMap;
diff --git a/src/a_star/AStar.cpp b/src/a_star/AStar.cpp
index f8f3ed4..f577d3b 100644
--- a/src/a_star/AStar.cpp
+++ b/src/a_star/AStar.cpp
@@ -41,7 +41,7 @@ AStar::~AStar() {
 
 void AStar::setNewMap( GridMap2d* map ) {
     // Check if there is an existing map
-    if ( mMap != NULL && ( mMap->getWidth() != map->getWidth() || mMap->getHeight() != map->getHeight() )) {
+    if ( mNodesList != NULL && ( mNodesWidth != map->getWidth() || mNodesHeight != map->getHeight() )) {
         cout << "AStar: Warning: Set map with new size. This takes some computation time." << endl;
         delete mNodesList;
         mNodesList = NULL;
@@ -49,14 +49,20 @@ void AStar::setNewMap( GridMap2d* map ) {
     mMap = map;
 
     // Create node list only if necessary
-    if ( mNodesList == NULL )
-        mNodesList = new OpenList( mMap->getWidth(), mMap->getHeight());
+    if ( mNodesList == NULL ) {
+        mNodesWidth = mMap->getWidth();
+        mNodesHeight = mMap->getHeight();
+        mNodesList = new OpenList( mNodesWidth, mNodesHeight );
+    }
 }
 
 bool AStar::planPath( const waypoint_t &start, const waypoint_t &goal ) {
     // Path contains no waypoints if the search fails
     mPath.clear();
 
+    // The size of the map might have changed since it was set
+    setNewMap( mMap );
+
     // Check start/goal cell indices
     if ( !mMap->isInMap( start.x, start.y )) {
         cout << ("AStar: Start is out of map.") << endl;
-- 
2.43.0


From af9ccdf084f9d1e5706f7208f8e01f96e6d8f655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:50 +0000
Subject: [PATCH 55/59] fix: assigned curves shared their segments, which were
 freed twice

---
 .../cslibs_path_planning/ReedsShepp/Curve.h   |  5 +++
 src/ReedsShepp/Curve.cpp                      | 39 +++++++++++++++++++
 2 files changed, 44 insertions(+)

diff --git a/include/cslibs_path_planning/ReedsShepp/Curve.h b/include/cslibs_path_planning/ReedsShepp/Curve.h
index 2114edc..f8f1776 100644
--- a/include/cslibs_path_planning/ReedsShepp/Curve.h
+++ b/include/cslibs_path_planning/ReedsShepp/Curve.h
@@ -44,6 +44,11 @@ public:
      */
     Curve(const Curve& c);
 
+    /**
+     * Assignment
+     */
+    Curve& operator=(const Curve& c);
+
     /**
      * Destructor
      */
diff --git a/src/ReedsShepp/Curve.cpp b/src/ReedsShepp/Curve.cpp
index 9306bc4..0c1564e 100644
--- a/src/ReedsShepp/Curve.cpp
+++ b/src/ReedsShepp/Curve.cpp
@@ -46,6 +46,45 @@ Curve::Curve(const Curve& c)
     }
 }
 
+Curve& Curve::operator=(const Curve& c)
+{
+    if(this == &c) {
+        return *this;
+    }
+
+    m_ignore_obstacles = c.m_ignore_obstacles;
+    m_circle_radius = c.m_circle_radius;
+    m_max_waypoint_distance = c.m_max_waypoint_distance;
+    m_use_map_cost = c.m_use_map_cost;
+    m_min_cell_cost = c.m_min_cell_cost;
+    m_cost_forwards = c.m_cost_forwards;
+    m_cost_backwards = c.m_cost_backwards;
+    m_cost_curve = c.m_cost_curve;
+    m_cost_straight = c.m_cost_straight;
+    m_weight = c.m_weight;
+    m_circle_start = c.m_circle_start;
+    m_circle_goal = c.m_circle_goal;
+    m_start = c.m_start;
+    m_goal = c.m_goal;
+    m_map = c.m_map;
+    m_iterating = c.m_iterating;
+    m_output_number = c.m_output_number;
+    m_trace = c.m_trace;
+
+    // the segments are owned by the curve
+    std::vector<CurveSegment*> old;
+    old.swap(m_sequence);
+    for(std::vector<CurveSegment*>::const_iterator it = c.m_sequence.begin();
+            it != c.m_sequence.end(); ++it) {
+        m_sequence.push_back((*it)->clone());
+    }
+    for(std::vector<CurveSegment*>::const_iterator it = old.begin(); it != old.end(); ++it) {
+        delete *it;
+    }
+
+    return *this;
+}
+
 Curve::~Curve()
 {
     for(std::vector<CurveSegment*>::const_iterator it = m_sequence.begin();
-- 
2.43.0


From 047ba9ef57d2c11575bb95ae16b4f377bfa160e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:50 +0000
Subject: [PATCH 56/59] fix: assigned collision maps shared their footprints,
 which were freed twice

---
 .../cslibs_path_planning/common/CollisionGridMap2d.h   |  1 +
 src/common/CollisionGridMap2d.cpp                      | 10 ++++++++++
 2 files changed, 11 insertions(+)

diff --git a/include/cslibs_path_planning/common/CollisionGridMap2d.h b/include/cslibs_path_planning/common/CollisionGridMap2d.h
index 086e992..1c2d65e 100644
--- a/include/cslibs_path_planning/common/CollisionGridMap2d.h
+++ b/include/cslibs_path_planning/common/CollisionGridMap2d.h
@@ -38,6 +38,7 @@ public:
      */
     CollisionGridMap2d( const unsigned int w, const unsigned int h, const double yaw, const double res, double forward, double backward, double width);
     CollisionGridMap2d( const CollisionGridMap2d& copy);
+    CollisionGridMap2d& operator=( const CollisionGridMap2d& copy);
     ~CollisionGridMap2d();
 
     bool isOccupiedRotated( const unsigned int x, const unsigned int y, const double theta ) const;
diff --git a/src/common/CollisionGridMap2d.cpp b/src/common/CollisionGridMap2d.cpp
index 7670419..fe9d59c 100644
--- a/src/common/CollisionGridMap2d.cpp
+++ b/src/common/CollisionGridMap2d.cpp
@@ -165,6 +165,16 @@ CollisionGridMap2d::CollisionGridMap2d(const CollisionGridMap2d& copy)
     }
 }
 
+CollisionGridMap2d& CollisionGridMap2d::operator=(const CollisionGridMap2d& copy)
+{
+    RotatedGridMap2d::operator=(copy);
+    for(int t = 0; t< ANGLE_DISCRETIZATION; ++t) {
+        *areas_[t] = *copy.areas_[t];
+        areas_[t]->setParent(this);
+    }
+    return *this;
+}
+
 CollisionGridMap2d::~CollisionGridMap2d()
 {
     for(int t = 0; t< ANGLE_DISCRETIZATION; ++t) {
-- 
2.43.0


From 56e5d4597fb60b3347cc4e8d909cdb18f40695c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:30 +0000
Subject: [PATCH 57/59] fix: footprints kept their size in cells when the
 resolution of the map was changed

---
 .../common/CollisionGridMap2d.h               | 12 +++++++++
 .../common/SimpleGridMap2d.h                  |  2 +-
 src/common/CollisionGridMap2d.cpp             | 27 ++++++++++++++-----
 3 files changed, 34 insertions(+), 7 deletions(-)

diff --git a/include/cslibs_path_planning/common/CollisionGridMap2d.h b/include/cslibs_path_planning/common/CollisionGridMap2d.h
index 1c2d65e..3026e52 100644
--- a/include/cslibs_path_planning/common/CollisionGridMap2d.h
+++ b/include/cslibs_path_planning/common/CollisionGridMap2d.h
@@ -41,6 +41,12 @@ public:
     CollisionGridMap2d& operator=( const CollisionGridMap2d& copy);
     ~CollisionGridMap2d();
 
+    /**
+     * @brief Set the size of one cell, the robot keeps its size in meter.
+     * @param r Size of one cell in meter.
+     */
+    virtual void setResolution( const double r );
+
     bool isOccupiedRotated( const unsigned int x, const unsigned int y, const double theta ) const;
     bool isFreeRotated( const unsigned int x, const unsigned int y, const double theta ) const;
     bool isNoInformationRotated(const unsigned int x, const unsigned int y, const double theta) const;
@@ -48,6 +54,12 @@ public:
 
 private:
     static int angle2slot( const double theta );
+    RobotArea createArea( const int slot ) const;
+
+    /// The robot in meter
+    double forward_;
+    double backward_;
+    double robot_width_;
 
     RobotArea* areas_[ANGLE_DISCRETIZATION];
 };
diff --git a/include/cslibs_path_planning/common/SimpleGridMap2d.h b/include/cslibs_path_planning/common/SimpleGridMap2d.h
index 99c2e12..330260b 100644
--- a/include/cslibs_path_planning/common/SimpleGridMap2d.h
+++ b/include/cslibs_path_planning/common/SimpleGridMap2d.h
@@ -64,7 +64,7 @@ public:
      * @brief Set the size on one cell.
      * @param r Size of one cell in meter.
      */
-    void setResolution( const double r )
+    virtual void setResolution( const double r )
         { res_ = r; }
 
     /**
diff --git a/src/common/CollisionGridMap2d.cpp b/src/common/CollisionGridMap2d.cpp
index fe9d59c..65e409e 100644
--- a/src/common/CollisionGridMap2d.cpp
+++ b/src/common/CollisionGridMap2d.cpp
@@ -145,19 +145,31 @@ void RobotArea::setValue( const uint8_t value )
 
 
 CollisionGridMap2d::CollisionGridMap2d(const unsigned int w, const unsigned int h, const double yaw , double r, double forward, double backward, double width)
-    : RotatedGridMap2d(w,h, yaw, r)
+    : RotatedGridMap2d(w,h, yaw, r), forward_(forward), backward_(backward), robot_width_(width)
 {
     for(int t = 0; t< ANGLE_DISCRETIZATION; ++t) {
-        double theta = (2 * M_PI) * t / ANGLE_DISCRETIZATION;
-        double res = getResolution();
-
-        areas_[t] = new RobotArea(this, forward / res, backward / res, width / res, theta);
+        areas_[t] = new RobotArea(createArea(t));
     }
 }
 
+RobotArea CollisionGridMap2d::createArea(const int slot) const
+{
+    double theta = (2 * M_PI) * slot / ANGLE_DISCRETIZATION;
+    double res = getResolution();
+
+    return RobotArea(this, forward_ / res, backward_ / res, robot_width_ / res, theta);
+}
+
+void CollisionGridMap2d::setResolution(const double r)
+{
+    RotatedGridMap2d::setResolution(r);
+    for(int t = 0; t< ANGLE_DISCRETIZATION; ++t) {
+        *areas_[t] = createArea(t);
+    }
+}
 
 CollisionGridMap2d::CollisionGridMap2d(const CollisionGridMap2d& copy)
-    : RotatedGridMap2d(copy)
+    : RotatedGridMap2d(copy), forward_(copy.forward_), backward_(copy.backward_), robot_width_(copy.robot_width_)
 {
     for(int t = 0; t< ANGLE_DISCRETIZATION; ++t) {
         areas_[t] = new RobotArea(*copy.areas_[t]);
@@ -168,6 +180,9 @@ CollisionGridMap2d::CollisionGridMap2d(const CollisionGridMap2d& copy)
 CollisionGridMap2d& CollisionGridMap2d::operator=(const CollisionGridMap2d& copy)
 {
     RotatedGridMap2d::operator=(copy);
+    forward_ = copy.forward_;
+    backward_ = copy.backward_;
+    robot_width_ = copy.robot_width_;
     for(int t = 0; t< ANGLE_DISCRETIZATION; ++t) {
         *areas_[t] = *copy.areas_[t];
         areas_[t]->setParent(this);
-- 
2.43.0


From 1591ad787b6a51821194a682bf86412b9e89c877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:29 +0000
Subject: [PATCH 58/59] fix: solutions found before a map was assigned were
 still listed, though their nodes were freed or reset

---
 include/cslibs_path_planning/generic/SearchAlgorithm.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cslibs_path_planning/generic/SearchAlgorithm.hpp b/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
index 5ea7e92..d423cd6 100644
--- a/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
+++ b/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
@@ -131,6 +131,7 @@ public:
     virtual void setMap(const MapT* map) {
         // the nodes might get freed
         open.clear();
+        goal_candidates = std::priority_queue<GoalCandidate, std::vector<GoalCandidate>, PairDistance>();
         map_.setMap(map);
         NeighborhoodType::setResolution(map->getResolution());
     }
-- 
2.43.0


From 99beb37bbdf3ac91367f3cbe757cc9aa116e3f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:44 +0000
Subject: [PATCH 59/59] fix: look up the cell of negative fractional
 coordinates in the obstacle heuristic

---
 include/cslibs_path_planning/generic/Heuristics.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cslibs_path_planning/generic/Heuristics.hpp b/include/cslibs_path_planning/generic/Heuristics.hpp
index cbcfe4f..2aceed2 100644
--- a/include/cslibs_path_planning/generic/Heuristics.hpp
+++ b/include/cslibs_path_planning/generic/Heuristics.hpp
@@ -303,7 +303,7 @@ struct HeuristicHolonomicObstacles {
     template <class A, class B>
     static void compute(A* current, const B* goal, double res) {
         if(costs) {
-            auto h = cost__(current->x, current->y);
+            auto h = cost__(std::floor(current->x), std::floor(current->y));
             if(h != std::numeric_limits<double>::max()) {
                 current->h = h * res;
             } else {
@@ -354,7 +354,7 @@ struct HeuristicHolonomicObstacles {
             }
         }
 
-        cost__(goal.x, goal.y) = 0;
+        cost__(std::floor(goal.x), std::floor(goal.y)) = 0;
 
         int iteration = 0;
 
-- 
2.43.0

