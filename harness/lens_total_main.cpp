#include "lens_engine.hpp"
namespace le {
void total_0(fns&);
void total_1(fns&);
void total_2(fns&);
void total_3(fns&);
void total_4(fns&);
}
int main(int argc, char** argv)
{
    le::fns r;
    le::total_0(r);
    le::total_1(r);
    le::total_2(r);
    le::total_3(r);
    le::total_4(r);
    return vp::run_main(argc, argv, [&](vp::Case& c) {
        vp::count("lenses", c.index == 0 ? r.size() : 0);
        auto live = vp::Tracked::live().load();
        auto n    = c.index % r.size();
        for (int i = 0; i < 4; ++i)
            r[n](c);
        c.expect(vp::Tracked::live().load() == live,
                 "C16.leak",
                 "values were not destroyed");
    });
}
