// A write taken back before the commit called watchers without a change, and
// so did two actions folded before the store's update became visible.
#include <lager/event_loop/queue.hpp>
#include <lager/state.hpp>
#include <lager/store.hpp>
#include <cstdio>
int main()
{
    int bad = 0;
    {
        auto st = lager::make_state(1);
        int n   = 0;
        lager::watch(st, [&](int) { ++n; });
        st.set(2);
        st.set(1);
        lager::commit(st);
        std::printf("state: %d calls\n", n);
        bad += n;
    }
    {
        lager::queue_event_loop q;
        auto store = lager::make_store<int>(0, lager::with_queue_event_loop{q}, lager::with_reducer([](int, int a) { return a; }));
        int n      = 0;
        lager::watch(store, [&](int) { ++n; });
        store.dispatch(5);
        store.dispatch(0);
        q.step();
        std::printf("store: %d calls\n", n);
        bad += n;
    }
    return bad != 0;
}
