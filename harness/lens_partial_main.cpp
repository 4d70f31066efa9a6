#include "lens_engine.hpp"
namespace le {
void partial_0(fns&);
void partial_1(fns&);
void partial_2(fns&);
void partial_3(fns&);
void partial_4(fns&);
void partial_5(fns&);
void partial_6(fns&);
} // namespace le
int main(int argc, char** argv)
{
    le::fns r;
    le::partial_0(r);
    le::partial_1(r);
    le::partial_2(r);
    le::partial_3(r);
    le::partial_4(r);
    le::partial_5(r);
    le::partial_6(r);
    return vp::run_main(argc, argv, [&](vp::Case& c) {
        vp::count("lenses", c.index == 0 ? r.size() : 0);
        auto live = vp::Tracked::live().load();
        auto n    = c.index % r.size();
        for (int i = 0; i < 4; ++i)
            r[n](c);
        c.expect(vp::Tracked::live().load() == live,
                 "C17.leak",
                 "values were not destroyed");
    });
}
