// C04: a reader made while a write is pending shows the published value
#include <lager/state.hpp>
#include <lager/reader.hpp>
#include <lager/commit.hpp>
#include <lager/with.hpp>
#include <cstdio>
struct M { int x = 0; bool operator==(const M& o) const { return x == o.x; } };
int main()
{
    auto st = lager::make_state(M{}, lager::transactional_tag{});
    st.set(M{7});
    lager::reader<int> a = st[&M::x];
    lager::reader<int> b = st.map([](M m) { return m.x; });
    lager::reader<int> c = lager::with(a, b).map([](int p, int q) { return p + q; });
    int calls = 0;
    a.watch([&](int) { calls++; });
    b.watch([&](int) { calls++; });
    c.watch([&](int) { calls++; });
    bool bad = a.get() != 0 || b.get() != 0 || c.get() != 0;
    std::printf("before commit: %d %d %d (state %d)\n", a.get(), b.get(), c.get(), st.get().x);
    lager::commit(st);
    bad = bad || a.get() != 7 || b.get() != 7 || c.get() != 14 || calls != 3;
    std::printf("after commit: %d %d %d, %d calls\n", a.get(), b.get(), c.get(), calls);
    return bad;
}
