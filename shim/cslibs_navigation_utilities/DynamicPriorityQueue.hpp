// Stand-in for cslibs_navigation_utilities' DynamicPrioritySet (not available offline):
// an indexed binary heap of unique elements with re-keying on re-push.
#ifndef SHIM_DYNAMICPRIORITYQUEUE_HPP
#define SHIM_DYNAMICPRIORITYQUEUE_HPP
#include <cassert>
#include <cstddef>
#include <unordered_map>
#include <vector>

template <class T, class Compare>
class DynamicPrioritySet {
public:
    typedef typename std::vector<T>::const_iterator const_iterator;
    typedef typename std::vector<T>::const_iterator iterator;

    void push(const T& e) {
        typename std::unordered_map<T, std::size_t>::iterator it = pos_.find(e);
        std::size_t i;
        if (it == pos_.end()) {
            i = heap_.size();
            heap_.push_back(e);
            pos_[e] = i;
        } else {
            i = it->second;
        }
        i = up(i);
        down(i);
    }
    void remove(const T& e) {
        typename std::unordered_map<T, std::size_t>::iterator it = pos_.find(e);
        if (it == pos_.end()) return;
        erase_at(it->second);
    }
    T top() const { assert(!heap_.empty()); return heap_.front(); }
    void pop() { assert(!heap_.empty()); erase_at(0); }
    bool empty() const { return heap_.empty(); }
    std::size_t size() const { return heap_.size(); }
    void clear() { heap_.clear(); pos_.clear(); }
    const_iterator begin() const { return heap_.begin(); }
    const_iterator end() const { return heap_.end(); }

private:
    // Compare(a,b): a is ordered after b (as for std::priority_queue)
    bool before(std::size_t a, std::size_t b) const { return comp_(heap_[b], heap_[a]); }
    void swap_(std::size_t a, std::size_t b) {
        T t = heap_[a]; heap_[a] = heap_[b]; heap_[b] = t;
        pos_[heap_[a]] = a; pos_[heap_[b]] = b;
    }
    std::size_t up(std::size_t i) {
        while (i > 0 && before(i, (i - 1) / 2)) { swap_(i, (i - 1) / 2); i = (i - 1) / 2; }
        return i;
    }
    void down(std::size_t i) {
        for (;;) {
            std::size_t m = i, l = 2 * i + 1, r = l + 1;
            if (l < heap_.size() && before(l, m)) m = l;
            if (r < heap_.size() && before(r, m)) m = r;
            if (m == i) return;
            swap_(i, m); i = m;
        }
    }
    void erase_at(std::size_t i) {
        std::size_t last = heap_.size() - 1;
        pos_.erase(heap_[i]);
        if (i != last) {
            heap_[i] = heap_[last];
            pos_[heap_[i]] = i;
        }
        heap_.pop_back();
        if (i < heap_.size()) { i = up(i); down(i); }
    }
    std::vector<T> heap_;
    std::unordered_map<T, std::size_t> pos_;
    Compare comp_;
};
#endif
