#include "generic_planners_make.hpp"
template std::unique_ptr<vgen::Planner> vgen::make_nd<4, 1>(char);
