// The expressions of with(), in parts that are compiled on their own.
#include "common.hpp"

#define PART(n) void exprs_##n(vp::Case&);
PART(0)
PART(1)
PART(2)
PART(3)
PART(4)
PART(5)

int main(int argc, char** argv)
{
    void (*parts[])(vp::Case&) = {
        exprs_0, exprs_1, exprs_2, exprs_3, exprs_4, exprs_5};
    return vp::run_main(argc, argv, [&](vp::Case& c) {
        parts[c.index % 6](c);
        c.nontrivial = true;
    });
}
