#pragma once
#include "Pyston/Graph/Node.h"
namespace Pyston { class GraphvizGenerator : public Visitor { public: explicit GraphvizGenerator(const std::string&) {} std::string str() const { return ""; } }; }
