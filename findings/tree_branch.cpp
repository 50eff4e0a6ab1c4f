// C18: opening a second branch at a step left the cursor in the first one.
#include <cstdio>
#include <lager/effect.hpp>
#include <lager/debug/tree_debugger.hpp>
#include <lager/deps.hpp>
int main()
{
    using dbg = lager::tree_debugger<int, int, lager::deps<>>;
    auto red  = [](int m, int a) { return m * 10 + a; };
    auto m    = dbg::model{0};
    for (int a : {1, 2})
        m = dbg::update(red, m, a).first;
    for (int a : {3, 4}) {
        m = dbg::update(red, m, dbg::undo_action{}).first;
        m = dbg::update(red, m, a).first;
    }
    int v = m;
    std::printf("visible model %d (expected 14)\n", v);
    return v != 14;
}
