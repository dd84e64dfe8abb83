// Stand-in for Elements' Exception: same streaming interface, no other behaviour.
#ifndef VERIF_SHIM_ELEMENTS_EXCEPTION_H
#define VERIF_SHIM_ELEMENTS_EXCEPTION_H
#include <algorithm>
#include <atomic>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <mutex>
#include <thread>
#include <set>
#include <vector>
#include <exception>
#include <sstream>
#include <string>
#include <type_traits>
#include <utility>
#define ELEMENTS_API
namespace Elements {
enum class ExitCode : int { OK = 0, NOT_OK = 1, USAGE = 64, DATAERR = 65, SOFTWARE = 70, CONFIG = 78 };
using ExitCodeType = int;
class Exception : public std::exception {
public:
  explicit Exception(ExitCode e = ExitCode::NOT_OK) : m_exit_code(e) {}
  explicit Exception(const std::string& message, ExitCode e = ExitCode::NOT_OK) : m_error_msg(message), m_exit_code(e) {}
  explicit Exception(const char* message, ExitCode e = ExitCode::NOT_OK) : m_error_msg(message), m_exit_code(e) {}
  Exception(const Exception&) = default;
  Exception(Exception&&)      = default;
  Exception& operator=(const Exception&) = default;
  ~Exception() noexcept override         = default;
  const char* what() const noexcept override { return m_error_msg.c_str(); }
  ExitCode exitCode() const noexcept { return m_exit_code; }
  void appendMessage(const std::string& message) { m_error_msg += message; }

protected:
  std::string m_error_msg;
  ExitCode    m_exit_code{ExitCode::NOT_OK};
};
template <class Ex, typename T>
auto operator<<(Ex&& ex, const T& message)
    -> std::enable_if_t<std::is_base_of<Exception, std::remove_reference_t<Ex>>::value, Ex> {
  std::ostringstream oss;
  oss << message;
  ex.appendMessage(oss.str());
  return std::forward<Ex>(ex);
}
}  // namespace Elements
#endif
