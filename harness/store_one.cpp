#include "store_engine.hpp"
namespace se {
void FN(Case& c) { run_driver<DRIVER>(c); }
}
