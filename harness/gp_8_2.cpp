#include "generic_planners_make.hpp"
template std::unique_ptr<vgen::Planner> vgen::make_nd<8, 2>(char);
