#include "common.hpp"
namespace te {
using vp::Case;
void run_Manual(Case&);
void run_Queue(Case&);
void run_Safe(Case&);
void run_Asio(Case&);
} // namespace te
int main(int argc, char** argv)
{
    return vp::run_main(argc, argv, [](vp::Case& c) {
        switch (c.rng.below(4)) {
        case 0: return te::run_Manual(c);
        case 1: return te::run_Queue(c);
        case 2: return te::run_Safe(c);
        default: return te::run_Asio(c);
        }
    });
}
