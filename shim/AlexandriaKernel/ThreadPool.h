// Stand-in for Alexandria's ThreadPool. Waiting is done on condition variables (so a controlled scheduler sees
#include "AlexandriaKernel/memory_tools.h"
// it); a task counts as running from the moment it leaves the queue, under the queue's lock.
#ifndef VERIF_SHIM_THREADPOOL_H
#define VERIF_SHIM_THREADPOOL_H
#include <atomic>
#include <condition_variable>
#include <cstddef>
#include <deque>
#include <exception>
#include <functional>
#include <mutex>
#include <thread>
#include <vector>
namespace Euclid {
class ThreadPool {
public:
  using Task = std::function<void(void)>;
  explicit ThreadPool(unsigned int n = std::thread::hardware_concurrency(), unsigned int = 50) : m_n(n) {
    for (unsigned i = 0; i < n; ++i) m_threads.emplace_back([this] { loop(); });
  }
  virtual ~ThreadPool() {
    {
      std::unique_lock<std::mutex> l(m_mutex);
      // like Alexandria: leave the queued work behind, wait for what is running
      m_stop = true;
      m_cv.notify_all();
    }
    for (auto& t : m_threads) t.join();
  }
  void submit(Task task) {
    if (m_n == 0) {
      task();
      return;
    }
    std::unique_lock<std::mutex> l(m_mutex);
    if (m_exception) std::rethrow_exception(m_exception);
    m_queue.push_back(std::move(task));
    m_cv.notify_one();
  }
  bool checkForException(bool rethrow = false) {
    std::unique_lock<std::mutex> l(m_mutex);
    if (m_exception && rethrow) std::rethrow_exception(m_exception);
    return m_exception != nullptr;
  }
  size_t queued() const {
    std::unique_lock<std::mutex> l(m_mutex);
    return m_queue.size();
  }
  size_t running() const {
    std::unique_lock<std::mutex> l(m_mutex);
    return m_running;
  }
  size_t activeThreads() const {
    std::unique_lock<std::mutex> l(m_mutex);
    return m_n - m_dead;
  }
  void block(bool throw_on_exception = true) {
    std::unique_lock<std::mutex> l(m_mutex);
    m_idle.wait(l, [this] { return (m_queue.empty() || m_exception) && m_running == 0; });
    if (m_exception && throw_on_exception) std::rethrow_exception(m_exception);
  }

private:
  void loop() {
    std::unique_lock<std::mutex> l(m_mutex);
    for (;;) {
      m_cv.wait(l, [this] { return m_stop || m_exception || !m_queue.empty(); });
      if (m_stop || m_exception) break;
      Task t = std::move(m_queue.front());
      m_queue.pop_front();
      ++m_running;
      l.unlock();
      std::exception_ptr ex;
      try {
        t();
      } catch (...) {
        ex = std::current_exception();
      }
      t = nullptr;
      l.lock();
      --m_running;
      if (ex && !m_exception) {
        m_exception = ex;
        m_cv.notify_all();
      }
      m_idle.notify_all();
    }
    ++m_dead;
    m_idle.notify_all();
  }
  mutable std::mutex       m_mutex;
  std::condition_variable  m_cv, m_idle;
  std::deque<Task>         m_queue;
  std::vector<std::thread> m_threads;
  std::exception_ptr       m_exception;
  unsigned                 m_n;
  size_t                   m_running = 0, m_dead = 0;
  bool                     m_stop = false;
};
}  // namespace Euclid
#endif
