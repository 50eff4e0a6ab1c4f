// C04/C10: a reader joining two sources showed the uncommitted value of one
// when the other was committed.
#include <cstdio>
#include <lager/commit.hpp>
#include <lager/cursor.hpp>
#include <lager/reader.hpp>
#include <lager/state.hpp>
#include <lager/with.hpp>
int main()
{
    auto a = lager::make_state(0, lager::transactional_tag{});
    auto b = lager::make_state(0, lager::transactional_tag{});
    lager::reader<int> sum = lager::with(a, b).map([](int x, int y) { return x + 10 * y; });
    b.set(1); // not committed
    a.set(1);
    lager::commit(a);
    std::printf("a=%d b=%d sum=%d (expected 1)\n", a.get(), b.get(), sum.get());
    return sum.get() != 1;
}
