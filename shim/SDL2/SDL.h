// The part of SDL2 that lager/event_loop/sdl.hpp stands on, simulated: a bounded
// event queue and a virtual clock.  What happens while the program is inside SDL
// is up to the scenario (the hooks).
#pragma once
#include <condition_variable>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <deque>
#include <functional>
#include <mutex>

typedef std::uint32_t Uint32;
typedef std::uint64_t Uint64;
typedef std::int32_t Sint32;
typedef std::uint8_t Uint8;
typedef enum
{
    SDL_FALSE,
    SDL_TRUE
} SDL_bool;

enum
{
    SDL_FIRSTEVENT = 0,
    SDL_QUIT       = 0x100,
    SDL_KEYDOWN    = 0x300,
    SDL_USEREVENT  = 0x8000,
    SDL_LASTEVENT  = 0xFFFF
};
struct SDL_UserEvent
{
    Uint32 type, timestamp, windowID;
    Sint32 code;
    void *data1, *data2;
};
union SDL_Event
{
    Uint32 type;
    SDL_UserEvent user;
    Uint8 padding[56];
};
#define SDL_zero(x) std::memset(&(x), 0, sizeof((x)))
#define SDL_TICKS_PASSED(A, B) ((std::int32_t)((B) - (A)) <= 0)

namespace lager_simulation {
struct Sdl
{
    std::deque<SDL_Event> queue;
    std::size_t capacity = 65535;
    Uint64 now           = 0; // milliseconds; the clock shows the low 32 bits
    Uint32 next_type     = SDL_USEREVENT;

    // decided by the scenario
    std::function<void()> on_clock    = [] {};         // the clock is read
    std::function<void(Uint32)> sleep = [](Uint32) {}; // SDL_Delay
    std::function<int()> on_push      = [] { return 1; };
    std::function<void()> on_poll     = [] {}; // things happen before a poll
    std::function<bool()> idle        = [] { return false; }; // waiting on an empty queue
    std::function<void(const SDL_Event&)> on_pop = [](const SDL_Event&) {};
    std::function<void()> on_none     = [] {}; // a poll found nothing

    // with threads, the queue is guarded as SDL's is
    bool threads = false;
    std::mutex m;
    std::condition_variable cv;

    int push(const SDL_Event& e)
    {
        if (threads) {
            std::unique_lock<std::mutex> l{m};
            int r = push_(e);
            cv.notify_one();
            return r;
        }
        return push_(e);
    }
    int push_(const SDL_Event& e)
    {
        if (queue.size() >= capacity)
            return -1;
        queue.push_back(e);
        return 1;
    }
    bool pop(SDL_Event* e)
    {
        if (threads) {
            std::unique_lock<std::mutex> l{m};
            return pop_(e);
        }
        return pop_(e);
    }
    bool pop_(SDL_Event* e)
    {
        if (queue.empty())
            return false;
        if (e) {
            *e = queue.front();
            queue.pop_front();
            on_pop(*e);
        }
        return true;
    }
};
inline Sdl*& sdl()
{
    static Sdl* s = nullptr;
    return s;
}
} // namespace lager_simulation

inline Uint32 SDL_GetTicks()
{
    auto& s = *lager_simulation::sdl();
    s.on_clock();
    return (Uint32) s.now;
}
inline Uint64 SDL_GetTicks64()
{
    auto& s = *lager_simulation::sdl();
    s.on_clock();
    return s.now;
}
inline Uint64 SDL_GetPerformanceCounter() { return SDL_GetTicks64(); }
inline Uint64 SDL_GetPerformanceFrequency() { return 1000; }
inline void SDL_Delay(Uint32 ms) { lager_simulation::sdl()->sleep(ms); }
inline Uint32 SDL_RegisterEvents(int n)
{
    auto& s = *lager_simulation::sdl();
    auto r  = s.next_type;
    s.next_type += n;
    return r;
}
inline int SDL_PushEvent(SDL_Event* e)
{
    auto& s = *lager_simulation::sdl();
    int r   = s.on_push();
    return r > 0 ? s.push(*e) : r;
}
inline void SDL_PumpEvents() { lager_simulation::sdl()->on_poll(); }
inline int SDL_PollEvent(SDL_Event* e)
{
    auto& s = *lager_simulation::sdl();
    s.on_poll();
    if (s.pop(e))
        return 1;
    s.on_none();
    return 0;
}
inline int SDL_WaitEvent(SDL_Event* e)
{
    auto& s = *lager_simulation::sdl();
    s.on_poll();
    if (s.threads) {
        std::unique_lock<std::mutex> l{s.m};
        s.cv.wait(l, [&] { return !s.queue.empty(); });
        s.pop_(e);
        return 1;
    }
    while (!s.pop(e))
        if (!s.idle())
            return 0; // an error
    return 1;
}
inline int SDL_WaitEventTimeout(SDL_Event* e, int ms)
{
    auto& s = *lager_simulation::sdl();
    if (ms < 0)
        return SDL_WaitEvent(e);
    s.on_poll();
    if (s.pop(e))
        return 1;
    s.sleep(ms);
    s.on_poll();
    if (s.pop(e))
        return 1;
    s.on_none();
    return 0;
}
inline const char* SDL_GetError() { return "simulated"; }
inline int SDL_SetError(const char*, ...) { return -1; }
