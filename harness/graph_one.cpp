#include "graph_engine.hpp"
namespace ge {
void FN(Case& c) { run_graph<TAG>(c); }
}
