// Stands in for CTPL, which is not in the repository: a pool of threads that run jobs in the order in which they were pushed.
#ifndef CTPL_STAND_IN
#define CTPL_STAND_IN
#include <condition_variable>
#include <deque>
#include <functional>
#include <mutex>
#include <thread>
#include <vector>
namespace ctpl {
class thread_pool {
public:
    explicit thread_pool(int n) : done(false) { for (int i = 0; i < n; ++i) t.push_back(std::thread(&thread_pool::run, this, i)); }
    ~thread_pool() { stop(true); }
    template <class F, class A, class B> void push(F f, A a, B b) { { std::lock_guard<std::mutex> l(m); q.push_back([f, a, b](int i) { f(i, a, b); }); } cv.notify_one(); }
    void stop(bool) { { std::lock_guard<std::mutex> l(m); done = true; } cv.notify_all(); for (size_t i = 0; i < t.size(); ++i) if (t[i].joinable()) t[i].join(); t.clear(); }
private:
    void run(int i) {
        for (;;) {
            std::function<void(int)> f;
            { std::unique_lock<std::mutex> l(m); while (q.empty() && !done) cv.wait(l); if (q.empty()) return; f = q.front(); q.pop_front(); }
            f(i);
        }
    }
    std::mutex m; std::condition_variable cv; std::deque<std::function<void(int)> > q; std::vector<std::thread> t; bool done;
};
}
#endif
