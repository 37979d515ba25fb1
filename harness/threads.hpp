// Jobs that run planners on a map shared with other threads; each gives a digest of everything it returned.
#ifndef VERIF_THREADS_HPP
#define VERIF_THREADS_HPP
#include "maps.hpp"
#include <memory>
#include <cslibs_path_planning/common/GridMap2d.h>

namespace vthr {
typedef std::vector<double> Digest;
// runs one job with its own planner; the random state determines the requests
void astar_job(vf::Rng r, lib_path::GridMap2d* map, Digest& out);
// settings of the process that planners of all threads share; before any planner runs
void steering_config();
void steering_job(vf::Rng r, lib_path::GridMap2d* map, Digest& out);
}
#endif
