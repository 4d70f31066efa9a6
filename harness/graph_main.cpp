#include "common.hpp"
namespace ge {
void FN(vp::Case& c);
vp::probe_ts graph_probes();
}
int main(int argc, char** argv)
{
    return vp::run_main(
        argc, argv, [](vp::Case& c) { ge::FN(c); }, ge::graph_probes());
}
