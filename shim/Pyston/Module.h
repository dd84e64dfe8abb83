#pragma once
#include "Pyston/GIL.h"
namespace Pyston { namespace detail {
inline PyObject* initModule() { static PyModuleDef d{PyModuleDef_HEAD_INIT, "pyston", nullptr, -1, nullptr, nullptr, nullptr, nullptr, nullptr}; return PyModule_Create(&d); }
} }
#define PYSTON_MODULE_INIT Pyston::detail::initModule
