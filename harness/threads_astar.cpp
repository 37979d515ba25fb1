#include "threads.hpp"
#include <cslibs_path_planning/a_star/AStar.h>
using namespace lib_path;

void vthr::astar_job(vf::Rng r, GridMap2d* map, Digest& out) {
    AStar a(map);
    int n = (int)r.range(1, 4);
    for (int i = 0; i < n; ++i) {
        waypoint_t s, t;
        s.x = (int)r.range(0, map->getWidth() - 1); s.y = (int)r.range(0, map->getHeight() - 1);
        t.x = (int)r.range(0, map->getWidth() - 1); t.y = (int)r.range(0, map->getHeight() - 1);
        out.push_back(a.planPath(s, t));
        path_t* p = a.getLastPath();
        for (size_t k = 0; k < p->size(); ++k) { out.push_back((*p)[k].x); out.push_back((*p)[k].y); }
    }
}
