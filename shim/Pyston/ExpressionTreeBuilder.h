#pragma once
#include "Pyston/Exceptions.h"
#include "Pyston/Graph/Node.h"
#include <boost/mpl/vector.hpp>
#include <boost/python/dict.hpp>
#include <boost/python/import.hpp>
#include <boost/python/list.hpp>
#include <boost/python/make_function.hpp>
#include <boost/python/tuple.hpp>
#include <functional>
#include <memory>
#include <vector>
namespace Pyston {
namespace detail {
inline const Context*& current() { static thread_local const Context* c = nullptr; return c; }
struct Scope { const Context* was; explicit Scope(const Context* c) : was(current()) { current() = c; } ~Scope() { current() = was; } };
struct ToPython : boost::static_visitor<boost::python::object> { template <typename T> boost::python::object operator()(const T& t) const { return boost::python::object(t); } };
inline void add(boost::python::list& l, double d) { l.append(d); }
inline void add(boost::python::list& l, const std::vector<double>& v) { for (double d : v) l.append(d); }
inline void add(boost::python::list& l, const AttributeSet& a) {
  boost::python::object o = boost::python::import("types").attr("SimpleNamespace")();
  for (auto& p : a) o.attr(p.first.c_str()) = boost::apply_visitor(ToPython(), p.second);
  l.append(o);
}
}
template <typename S> class ExpressionTree;
template <typename R, typename... A> class ExpressionTree<R(A...)> {
public:
  explicit ExpressionTree(const boost::python::object& f) : m_f(new boost::python::object(f), [](boost::python::object* p) { GILLocker l; delete p; }) {}
  bool isCompiled() const { return false; }
  std::unique_ptr<Exception> reason() const { return std::unique_ptr<Exception>(new Exception); }
  std::shared_ptr<Node> getTree() const { return std::make_shared<Node>(); }
  R operator()(A... a) const { static const Context none; return (*this)(none, a...); }
  R operator()(const Context& c, A... a) const {
    GILLocker l; detail::Scope s(&c);
    try {
      boost::python::list args; int unroll[] = {0, (detail::add(args, a), 0)...}; (void)unroll;
      boost::python::object r(boost::python::handle<>(PyObject_CallObject(m_f->ptr(), boost::python::tuple(args).ptr())));
      return boost::python::extract<R>(r);
    } catch (const boost::python::error_already_set&) { throw Exception(); }
  }
private:
  std::shared_ptr<boost::python::object> m_f;
};
class ExpressionTreeBuilder {
public:
  template <typename S> void registerFunction(const std::string& name, double (*f)(const Context&, double, double)) {
    std::function<double(double, double)> g = [f](double x, double y) { if (!detail::current()) throw Elements::Exception() << "no context"; return f(*detail::current(), x, y); };
    boost::python::import("pyston").attr(name.c_str()) = boost::python::make_function(g, boost::python::default_call_policies(), boost::mpl::vector<double, double, double>());
  }
  template <typename S, typename... X> ExpressionTree<S> build(const boost::python::object& f, X&&...) const { return ExpressionTree<S>(f); }
};
}
