// Stand-in for Elements' Logging: messages are formatted lazily and dropped.
#ifndef VERIF_SHIM_ELEMENTS_LOGGING_H
#define VERIF_SHIM_ELEMENTS_LOGGING_H
#include <cstdio>
#include <cstdlib>
#include <sstream>
#include <string>
#define ELEMENTS_SHIM_LOGGING
namespace Elements {
class Logging {
public:
  class LogMessageStream {
  public:
#ifdef VERIF_PYTHON
    // the end-to-end programs print errors
    std::ostringstream* m_out = nullptr;
    LogMessageStream(bool on = false) : m_out(on ? new std::ostringstream : nullptr) {}
    LogMessageStream(LogMessageStream&& o) : m_out(o.m_out) { o.m_out = nullptr; }
    ~LogMessageStream() { if (m_out) { fprintf(stderr, "%s\n", m_out->str().c_str()); delete m_out; } }
    template <typename T> LogMessageStream& operator<<(const T& v) { if (m_out) *m_out << v; return *this; }
    LogMessageStream& operator<<(std::ostream& (*)(std::ostream&)) { return *this; }
#else
    template <typename T> LogMessageStream& operator<<(const T&) { return *this; }
    LogMessageStream& operator<<(std::ostream& (*)(std::ostream&)) { return *this; }
#endif
  };
  static Logging getLogger(const std::string& = "") { return {}; }
  static void    setLevel(const std::string&) {}
  static void    setLogFile(const std::string&) {}
  LogMessageStream debug() { return {}; }
  LogMessageStream info() { return {}; }
  LogMessageStream warn() { return {}; }
#ifdef VERIF_PYTHON
  LogMessageStream error() { return LogMessageStream(true); }
  LogMessageStream fatal() { return LogMessageStream(true); }
  template <typename A> void log(int, const A& a) { fprintf(stderr, "%s\n", std::string(a).c_str()); }
#else
  LogMessageStream error() { return {}; }
  LogMessageStream fatal() { return {}; }
#endif
  template <typename... A> void debug(const A&...) {}
  template <typename... A> void info(const A&...) {}
  template <typename... A> void warn(const A&...) {}
  template <typename... A> void error(const A&...) {}
  template <typename... A> void fatal(const A&...) {}
  template <typename... A> void log(const A&...) {}
};
}  // namespace Elements
#endif
