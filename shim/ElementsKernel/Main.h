#pragma once
#include "ElementsKernel/Program.h"
#define CREATE_MANAGER_WITH_ARGS(MANAGER, ELEMENTS_PROGRAM, ...) Elements::ProgramManager MANAGER(std::unique_ptr<Elements::Program>(new ELEMENTS_PROGRAM(__VA_ARGS__)))
