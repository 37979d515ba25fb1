#ifndef VERIF_IN_THREAD_HPP
#define VERIF_IN_THREAD_HPP
#include <boost/thread.hpp>
#include <functional>
#include <mutex>

namespace vf {
// Runs f in a thread of its own, which is interrupted before f begins if asked for. f gets its own thread.
inline void in_thread(bool interrupted, std::function<void(boost::thread&)> f) {
    std::mutex gate;
    gate.lock();
    boost::thread* self = 0;
    boost::thread t([&] { gate.lock(); gate.unlock(); f(*self); });
    self = &t;
    if (interrupted) t.interrupt();
    gate.unlock();
    t.join();
}
} // namespace vf
#endif
