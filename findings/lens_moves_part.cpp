// Setting nothing through cursors below temporaries must not change the model (C13, ab222e4).
// The names are kept; before the fix they were empty.
#include <lager/state.hpp>
#include <lager/cursor.hpp>
#include <lager/with.hpp>
#include <lager/lenses/at.hpp>
#include <lager/lenses/attr.hpp>
#include <lager/lenses/optional.hpp>
#include <lager/lenses/variant.hpp>
#include <lager/lenses/tuple.hpp>
#include <cstdio>
#include <string>
#include <vector>
#include <variant>
struct S { std::string name; int n=0; bool operator==(const S&) const=default; };
using namespace lager;
int main(){
  { auto st = make_state(std::vector<S>{{"a long enough name to be on the heap", 3}}, automatic_tag{});
    cursor<std::vector<S>> c = st;
    cursor<std::optional<std::string>> n = c[0][&S::name];
    n.set(std::optional<std::string>{});
    printf("at|with_opt: '%s' %d\n", st.get()[0].name.c_str(), st.get()[0].n); }
  { auto st = make_state(std::vector<std::variant<int,std::string>>{std::string("a long enough name to be on the heap")}, automatic_tag{});
    cursor<std::vector<std::variant<int,std::string>>> c = st;
    cursor<std::optional<std::string>> n = c[0][lenses::with_opt(lenses::alternative<std::string>)];
    n.set(std::optional<std::string>{});
    printf("at|alternative: '%s'\n", std::get<1>(st.get()[0]).c_str()); }
  { auto a = make_state(std::string("a long enough name to be on the heap"), automatic_tag{}); auto b=make_state(1,automatic_tag{});
    auto c = with(a,b).zoom(lenses::zip(lenses::force_opt, zug::identity)).make();
    c.set(std::tuple<std::optional<std::string>,int>{std::nullopt, 7});
    printf("zip: '%s' %d\n", a.get().c_str(), b.get()); }
  { auto a = make_state(std::optional<S>{S{"a long enough name to be on the heap",3}}, automatic_tag{}); auto b=make_state(1,automatic_tag{});
    auto c = with(a,b).zoom(lenses::first | lenses::with_opt(lenses::attr(&S::name))).make();
    c.set(std::optional<std::string>{});
    printf("with: '%s' %d\n", a.get()->name.c_str(), b.get()); }
}
