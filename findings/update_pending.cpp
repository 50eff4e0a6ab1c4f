// C13: updates through a derived cursor accumulate before a commit
#include <lager/state.hpp>
#include <lager/cursor.hpp>
#include <lager/commit.hpp>
#include <cstdio>
struct M { int x = 0; bool operator==(const M& o) const { return x == o.x; } };
int main()
{
    auto st = lager::make_state(M{}, lager::transactional_tag{});
    lager::cursor<int> a = st[&M::x];
    a.update([](int v) { return v + 1; });
    a.update([](int v) { return v + 1; });
    lager::commit(st);
    std::printf("x = %d, expected 2\n", a.get());
    return a.get() != 2;
}
