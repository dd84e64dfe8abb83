// Stand-in for Alexandria's FilePool. A handler serialises accessors to its file and keeps the file open while it
// lives in the same mode; asking for write access reopens the file writeable.
#ifndef VERIF_SHIM_FILEPOOL_H
#define VERIF_SHIM_FILEPOOL_H
#include <boost/filesystem.hpp>
#include <map>
#include <memory>
#include <mutex>
#include <typeindex>
namespace Euclid {
namespace FilePool {
template <typename TFD> class FileAccessor {
public:
  FileAccessor(std::unique_lock<std::recursive_mutex> l, std::shared_ptr<TFD> p) : m_hold(std::move(p)), m_fd(*m_hold), m_lock(std::move(l)) {}
private:
  std::shared_ptr<TFD> m_hold;
public:
  TFD& m_fd;
private:
  std::unique_lock<std::recursive_mutex> m_lock;
};
class FileHandler {
public:
  enum Mode { kRead = 1, kWrite = 2, kTryRead = 4, kTryWrite = 8 };
  explicit FileHandler(const boost::filesystem::path& p) : m_path(p) {}
  template <typename TFD> std::unique_ptr<FileAccessor<TFD>> getAccessor(Mode mode = kRead) {
    std::unique_lock<std::recursive_mutex> l(m_mutex);
    bool write = mode == kWrite || mode == kTryWrite;
    if (!m_file || m_type != std::type_index(typeid(TFD)) || (write && !m_write)) {
      m_file.reset();
      m_file  = std::make_shared<TFD>(m_path, write);
      m_type  = typeid(TFD);
      m_write = write;
    }
    auto p = std::static_pointer_cast<TFD>(m_file);
    return std::unique_ptr<FileAccessor<TFD>>(new FileAccessor<TFD>(std::move(l), p));
  }
  bool isReadOnly() const { return !m_write; }
private:
  boost::filesystem::path m_path;
  std::recursive_mutex    m_mutex;
  std::shared_ptr<void>   m_file;
  std::type_index         m_type{typeid(void)};
  bool                    m_write = false;
};
class FileManager {
public:
  static std::shared_ptr<FileManager> getDefault() {
    static auto m = std::make_shared<FileManager>();
    return m;
  }
  virtual ~FileManager() = default;
  virtual std::shared_ptr<FileHandler> getFileHandler(const boost::filesystem::path& p) {
    std::lock_guard<std::mutex> g(m_mutex);
    auto key = boost::filesystem::weakly_canonical(p);
    auto h   = m_handlers[key].lock();
    if (!h) m_handlers[key] = h = std::make_shared<FileHandler>(p);
    return h;
  }
private:
  std::mutex m_mutex;
  std::map<boost::filesystem::path, std::weak_ptr<FileHandler>> m_handlers;
};
}  // namespace FilePool
}  // namespace Euclid
#endif
