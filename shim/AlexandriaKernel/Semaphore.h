// Stand-in for Alexandria's counting semaphore.
#include "AlexandriaKernel/memory_tools.h"
#ifndef VERIF_SHIM_ALEXANDRIA_SEMAPHORE_H
#define VERIF_SHIM_ALEXANDRIA_SEMAPHORE_H
#include <condition_variable>
#include <mutex>
namespace Euclid {
class Semaphore {
public:
  explicit Semaphore(unsigned n = 0) : m_count(n) {}
  ~Semaphore() = default;
  Semaphore(const Semaphore&) = delete;
  void acquire() {
    std::unique_lock<std::mutex> l(m_mutex);
    m_cond.wait(l, [this]() { return m_count > 0; });
    --m_count;
  }
  bool try_acquire() {
    std::unique_lock<std::mutex> l(m_mutex);
    if (m_count == 0) return false;
    --m_count;
    return true;
  }
  void release(unsigned n = 1) {
    std::unique_lock<std::mutex> l(m_mutex);
    m_count += n;
    if (n == 1) m_cond.notify_one(); else m_cond.notify_all();
  }

private:
  unsigned                m_count;
  std::mutex              m_mutex;
  std::condition_variable m_cond;
};
class SemaphoreLock {};
}  // namespace Euclid
#endif
