// Implementation of the planners for one neighborhood.
#ifndef VERIF_GENERIC_PLANNERS_IMPL_HPP
#define VERIF_GENERIC_PLANNERS_IMPL_HPP
#include "generic_planners.hpp"

namespace vgen {

template <class S> struct Test {
    typedef typename S::NodeT NodeT;
    S* s;
    const std::vector<GoalSpec>* gs;
    bool terminate(const NodeT* nd) const {
        if (test_hook()) test_hook()();
        for (size_t i = 0; i < gs->size(); ++i)
            if (nd->x == (*gs)[i].x && nd->y == (*gs)[i].y) {
                s->addGoalCandidate(nd, (*gs)[i].cost);
                return (*gs)[i].stop;
            }
        return false;
    }
    const Pose2d* hg;
    const Pose2d* getHeuristicGoal() const { return hg; }
};

template <class S> struct Impl : Planner {
    S s;
    typedef typename S::PathT PathT;
    static PPath conv(const PathT& p) {
        PPath r;
        for (size_t i = 0; i < p.size(); ++i) { PNode n = {p[i].x, p[i].y, p[i].theta, p[i].distance}; r.push_back(n); }
        return r;
    }
    template <class F> Found run(F f) {
        Found o;
        try { o.path = conv(f()); }
        catch (typename S::StartOutOfMapException&) { o.exc = "start-out"; }
        catch (typename S::GoalOutOfMapException&) { o.exc = "goal-out"; }
        catch (typename S::StartNotFreeException&) { o.exc = "start-occ"; }
        catch (typename S::GoalNotFreeException&) { o.exc = "goal-occ"; }
        catch (OutsideMapException&) { o.exc = "OutsideMapException"; }
        catch (boost::thread_interrupted&) { o.exc = "interrupted"; }
        catch (Abort&) { o.exc = "abort"; }
        o.expansions = s.getExpansions(); o.multi = s.getMultiExpansions(); o.touched = s.getTouchedNodes();
        std::vector<PathT> c = s.getPathCandidates();
        for (size_t i = 0; i < c.size(); ++i) o.candidates.push_back(conv(c[i]));
        return o;
    }
    void map(const GridMap2d* m) { s.setMap(m); }
    Found find(const Pose2d& a, const Pose2d& b, const SearchOptions& so) { return run([&] { return s.findPath(a, b, so); }); }
    Found find_cb(const Pose2d& a, const Pose2d& b, boost::function<void()> cb, const SearchOptions& so) {
        return run([&] { return s.findPath(a, b, cb, so); });
    }
    Found find_custom(const Pose2d& a, const std::vector<GoalSpec>& gs, const SearchOptions& so, const Pose2d* heuristic_goal) {
        std::unique_ptr<Pose2d> hg(heuristic_goal ? new Pose2d(*heuristic_goal) : 0); // lives as long as the search
        Test<S> t = {&s, &gs, hg.get()};
        return run([&] { return s.findPath(a, t, so); });
    }
    void limit(double x) { s.setTimeLimit(x); }
    void candidate_cb(std::function<bool(const PPath&)> f) {
        if (!f) { s.setPathCandidateCallback(std::function<bool(const PathT&)>()); return; }
        s.setPathCandidateCallback([f](const PathT& p) { return f(conv(p)); });
    }
    int expansions() { return s.getExpansions(); }
    size_t candidates() { return s.getPathCandidates().size(); }
};

struct PatchyHeuristic {
    template <class PointT> struct NodeHolder { typedef HeuristicNode<PointT> NodeType; };
    template <class A, class B> static void compute(A* c, const B* goal, double res) {
        c->h = res * patch_factor(c->x, c->y) * std::hypot(c->x - goal->x, c->y - goal->y);
    }
    template <class Map, class NodeT> static void setMap(const Map*, const NodeT&) {}
};

template <class H, class N, int DI = 0, int DS = 0>
struct Custom : public GenericSearchAlgorithm<GenericParameter<Pose2d, H, GridMap2d, N, NoExpansion, PriorityQueueManager, GridMapManager, DI, DS> > {};

} // namespace vgen
#endif
