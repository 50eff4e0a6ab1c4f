// watch() whose callback cannot be stored; the next watch() links the reader twice (C28).
#include <lager/state.hpp>
#include <lager/reader.hpp>
#include <lager/watch.hpp>
#include <cstdio>
struct Cb {
  bool bad;
  Cb(bool b) : bad{b} {}
  Cb(const Cb& o) : bad{o.bad} { if (bad) throw 1; }
  void operator()(int v) const { std::printf("told %d\n", v); }
};
int main(){
  auto s=lager::make_state(0, lager::automatic_tag{});
  lager::reader<int> r=s;
  Cb bad{true}, good{false};
  try { r.watch(bad); } catch (int) { std::puts("threw"); }
  r.watch(good); // asserts in Boost.Intrusive (corrupts the list with NDEBUG)
  s.set(1);
}
