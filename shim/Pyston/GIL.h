// VERIF_PYTHON: an interpreter is embedded and the lock is the real one. Otherwise no interpreter runs and taking it is a no-op.
#pragma once
#ifdef VERIF_PYTHON
#include <Python.h>
#include <atomic>
namespace Pyston {
class GILLocker {
public:
  GILLocker() : m_state(PyGILState_Ensure()) { ++count(); }
  ~GILLocker() { PyGILState_Release(m_state); }
  GILLocker(const GILLocker&) = delete;
  static unsigned getLockCount() { return count(); }
private:
  static std::atomic<unsigned>& count() { static std::atomic<unsigned> c{0}; return c; }
  PyGILState_STATE m_state;
};
}
#else
namespace Pyston { struct GILLocker { GILLocker() {} ~GILLocker() {} static unsigned getLockCount() { return 0; } };
struct GILReleaser { GILReleaser() {} ~GILReleaser() {} }; struct SaveThread { void save() {} void restore() {} }; }
#endif
