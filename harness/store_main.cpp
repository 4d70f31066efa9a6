#include "common.hpp"
namespace se {
using vp::Case;
void run_step(Case& c);
void run_manual(Case& c);
void run_queue(Case& c);
void run_safe_queue(Case& c);
void run_asio(Case& c);
}
int main(int argc, char** argv)
{
    return vp::run_main(argc, argv, [](vp::Case& c) {
        auto x = c.rng.below(10);
        if (x < 4)
            se::run_step(c);
        else if (x < 6)
            se::run_manual(c);
        else if (x < 7)
            se::run_queue(c);
        else if (x < 8)
            se::run_safe_queue(c);
        else
            se::run_asio(c);
    });
}
