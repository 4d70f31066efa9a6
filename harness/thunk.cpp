#include "thunk_engine.hpp"
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
namespace te {
void CAT(run_, LOOP)(Case& c)
{
    switch (c.rng.below(6)) {
    case 0: return run<LOOP, 0>(c);
    case 1: return run<LOOP, 1>(c);
    case 2: return run<LOOP, 2>(c);
    case 3: return run<LOOP, 3>(c);
    case 4: return run<LOOP, 4>(c);
    default: return run<LOOP, 5>(c);
    }
}
} // namespace te
