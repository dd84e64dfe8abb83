#pragma once
#include "ElementsKernel/Exception.h"
#include "ElementsKernel/Logging.h"
#include "Pyston/GIL.h"
#include <boost/python/extract.hpp>
#include <boost/python/object.hpp>
namespace log4cpp { struct Priority { enum Value { ERROR = 300, WARN = 400, INFO = 600, DEBUG = 700 }; }; }
namespace Pyston {
class Exception : public Elements::Exception {
public:
  Exception() : Elements::Exception(pending()) {}
  static std::string pending() {   // takes the pending Python error
    std::string text = "Python error";
    if (PyErr_Occurred()) {
      PyObject *t, *v, *b; PyErr_Fetch(&t, &v, &b); PyErr_NormalizeException(&t, &v, &b);
      if (v) { PyObject* s = PyObject_Str(v); if (s) { text = PyUnicode_AsUTF8(s); Py_DECREF(s); } }
      Py_XDECREF(t); Py_XDECREF(v); Py_XDECREF(b);
    }
    return text;
  }
  template <typename L> const Exception& log(log4cpp::Priority::Value, L&&) const { return *this; }
};
}
