// Factory definition, for the gp_N_D.cpp instantiations only.
#ifndef VERIF_GENERIC_PLANNERS_MAKE_HPP
#define VERIF_GENERIC_PLANNERS_MAKE_HPP
#include "generic_planners_impl.hpp"

namespace vgen {

template <int N, int D> std::unique_ptr<Planner> make_nd(char heur) {
    typedef DirectNeighborhood<N, D> DN;
    std::unique_ptr<Planner> p;
    switch (heur) {
    case '2': p.reset(new Impl<AStar2dSearch<DN> >); break;
    case '1': p.reset(new Impl<AStar2dTaxiSearch<DN> >); break;
    case 'i': p.reset(new Impl<AStar2dInfSearch<DN> >); break;
    case 'm': p.reset(new Impl<Custom<MaxHeuristic<HeuristicL2, HeuristicLInf>, DN> >); break;
    case 'p': p.reset(new Impl<Custom<PatchyHeuristic, DN> >); break;
    default: p.reset(new Impl<Custom<HeuristicL2OverEstimate, DN> >); heur = 'o'; break;
    }
    p->n = N; p->d = D; p->heur = heur;
    return p;
}

} // namespace vgen
#endif
