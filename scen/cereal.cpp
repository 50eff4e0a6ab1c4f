// Saving and loading (C23): values of the supported shapes through binary,
// portable binary and JSON archives over a simulated storage stream that splits,
// cuts, alters and fails, and under failing allocations.
#include "sim.hpp"

#include <cereal/archives/binary.hpp>
#include <cereal/archives/json.hpp>
#include <cereal/archives/portable_binary.hpp>
#include <cereal/types/optional.hpp>
#include <cereal/types/string.hpp>

#include <lager/debug/debugger.hpp>
#include <lager/debug/tree_debugger.hpp>
#include <lager/extra/cereal/immer_array.hpp>
#include <lager/extra/cereal/immer_box.hpp>
#include <lager/extra/cereal/immer_flex_vector.hpp>
#include <lager/extra/cereal/immer_map.hpp>
#include <lager/extra/cereal/immer_set.hpp>
#include <lager/extra/cereal/immer_vector.hpp>
#include <lager/extra/cereal/json.hpp>
#include <lager/extra/cereal/struct.hpp>
#include <lager/extra/cereal/tuple.hpp>
#include <lager/extra/cereal/variant_with_name.hpp>
#include <lager/extra/derive.hpp>
#include <lager/extra/derive/cereal.hpp>
#include <lager/extra/derive/eq.hpp>
#include <lager/extra/enum.hpp>
#include <lager/extra/struct.hpp>

#include <optional>
#include <sstream>
#include <streambuf>
#include <string>
#include <tuple>
#include <variant>

namespace md {

// every live one is counted, and its memory is its own
struct cell
{
    static inline long live = 0;
    int* p;
    explicit cell(int v = 0)
        : p{new int{v}}
    {
        ++live;
    }
    cell(const cell& o)
        : cell(*o.p)
    {}
    cell& operator=(const cell& o)
    {
        int v = *o.p;
        *p    = v;
        return *this;
    }
    ~cell()
    {
        --live;
        delete p;
    }
    bool operator==(const cell& o) const { return *p == *o.p; }
    bool operator!=(const cell& o) const { return *p != *o.p; }
};
template <typename Ar>
void serialize(Ar& ar, cell& c)
{
    ar(cereal::make_nvp("cell", *c.p));
}

struct leaf
{
    int i    = 0;
    double d = 0;
    std::string s;
};
struct item
{
    int id = 0;
    std::string name;
    cell c;
};
struct named
{
    std::string id;
    int n = 0;
};
struct snake
{
    int first_value = 0;
    std::string second_one;
    immer::vector<int> numbers;
    std::optional<int> maybe_it;
};
struct camel
{
    static constexpr bool serialize_camel_case = true;
    int first_value = 0;
    std::string second_one;
    immer::vector<int> some_numbers;
};
template <typename A, typename B>
struct two
{
    A a = {};
    B b = {};
    LAGER_DERIVE_NESTED((EQ, CEREAL), two, a, b);
};
struct tree
{
    std::string label;
    immer::vector<immer::box<tree>> kids;
};
enum class color
{
    red,
    green,
    blue
};
// alike in everything but the name, which is part of another one's
template <int N>
struct kin
{
    int n = 0;
    bool operator==(const kin& o) const { return n == o.n; }
    template <typename A>
    void serialize(A& ar)
    {
        ar(cereal::make_nvp("n", n));
    }
};
// writes and reads itself
struct selfish
{
    int n = 0;
    immer::vector<std::string> xs;
    bool operator==(const selfish& o) const { return n == o.n && xs == o.xs; }
    bool operator!=(const selfish& o) const { return !(*this == o); }
    template <typename A>
    void save(A& ar) const
    {
        ar(cereal::make_nvp("n", n), cereal::make_nvp("xs", xs));
    }
    template <typename A>
    void load(A& ar)
    {
        ar(cereal::make_nvp("n", n), cereal::make_nvp("xs", xs));
    }
};
struct kin_list : kin<0>
{};
struct kin_ : kin<0>
{};
struct my_kin_ : kin<0>
{};
struct KIN_ : kin<0>
{};
using kins = std::variant<kin_list, my_kin_, KIN_, kin<12>, kin_, kin<1>, kin<2>>;
using choice = std::variant<int, std::monostate, std::string, leaf, immer::vector<int>>;
struct act_a
{
    int by = 0;
};
struct act_b
{
    std::string why;
};
using act = std::variant<act_a, act_b>;
struct dbg_model
{
    int n = 0;
    immer::vector<int> xs;
};
} // namespace md
LAGER_ENUM(md, color, red, green, blue);
LAGER_DERIVE((EQ, CEREAL), md, leaf, i, d, s);
LAGER_DERIVE((EQ, CEREAL), md, item, id, name, c);
LAGER_DERIVE((EQ, CEREAL), md, named, id, n);
LAGER_STRUCT(md, snake, first_value, second_one, numbers, maybe_it);
LAGER_STRUCT(md, camel, first_value, second_one, some_numbers);
LAGER_DERIVE((EQ, CEREAL), md, tree, label, kids);
LAGER_STRUCT(md, act_a, by);
LAGER_STRUCT(md, act_b, why);
LAGER_STRUCT(md, dbg_model, n, xs);
namespace md {
struct root
{
    immer::vector<choice> choices;
    immer::map<std::string, immer::vector<int>> lists;
    immer::flex_vector<std::tuple<int, std::string>> pairs;
    std::optional<immer::box<leaf>> boxed;
    immer::set<int> ids;
    immer::array<std::optional<int>> opts;
    color col = color::red;
    two<int, immer::map<int, item>> sub;
    immer::vector<cell> cells;
};
} // namespace md
LAGER_DERIVE((EQ, CEREAL), md, root, choices, lists, pairs, boxed, ids, opts, col, sub, cells);

namespace {

using sim::active;
using sim::chance;
using sim::choose;
using sim::ev;
using sim::fault;
using sim::NoFail;

enum Format
{
    f_json,
    f_binary,
    f_portable,
    f_inline, // lager::to_json / from_json
    f_count
};
bool g_text; // text format: no NUL in strings

// ------------------------------------------------------------ generators ----
template <typename T>
struct gen;
template <typename T>
T make(int d)
{
    return gen<T>::make(d);
}
int size_for(int d)
{
    if (d <= 0)
        return choose(3);
    switch (choose(8)) {
    case 0: return 0;
    case 1: return 1;
    case 2: return 31 + choose(4); // around the node size
    case 3: return d > 1 ? (choose(24) ? 2 + choose(120) : 1000 + choose(120)) : 2; // rarely past two levels of nodes
    default: return 1 + choose(5);
    }
}
template <>
struct gen<int>
{
    static int make(int)
    {
        switch (choose(6)) {
        case 0: return 0;
        case 1: return -1 - (int) choose(3);
        case 2: return 2147483647;
        case 3: return (int) 0x80000000u;
        default: return choose(10);
        }
    }
};
template <>
struct gen<double>
{
    static double make(int) { return ((int) choose(64) - 20) / 8.0; }
};
template <>
struct gen<std::size_t>
{
    static std::size_t make(int) { return choose(4); }
};
template <>
struct gen<bool>
{
    static bool make(int) { return choose(2); }
};
template <>
struct gen<std::string>
{
    static std::string make(int)
    {
        switch (choose(6)) {
        case 0: return "";
        case 1: return "a \"quoted\" \\ line\nand \xc3\xa9 ";
        case 2: return std::string(14 + choose(4), 'x'); // around the inline size
        case 3: return g_text ? "{[" : std::string("\0z\xff", 3);
        case 4: return std::string(60 + choose(60), 'y');
        default: return std::string(1, 'a' + choose(26));
        }
    }
};
template <>
struct gen<md::color>
{
    static md::color make(int) { return (md::color) choose(3); }
};
template <>
struct gen<std::monostate>
{
    static std::monostate make(int) { return {}; }
};
template <>
struct gen<md::cell>
{
    static md::cell make(int d) { return md::cell{gen<int>::make(d)}; }
};
template <>
struct gen<md::leaf>
{
    static md::leaf make(int d) { return {::make<int>(d), ::make<double>(d), ::make<std::string>(d)}; }
};
template <int N>
struct gen<md::kin<N>>
{
    static md::kin<N> make(int d) { return {::make<int>(d)}; }
};
#define GEN_KIN(T)                                                             \
    template <>                                                                \
    struct gen<T>                                                              \
    {                                                                          \
        static T make(int d) { return {{::make<int>(d)}}; }                    \
    }
template <>
struct gen<md::selfish>
{
    static md::selfish make(int d);
};
GEN_KIN(md::kin_list);
GEN_KIN(md::kin_);
GEN_KIN(md::my_kin_);
GEN_KIN(md::KIN_);
template <>
struct gen<md::item>
{
    static md::item make(int d) { return {(int) choose(50), ::make<std::string>(d), ::make<md::cell>(d)}; }
};
template <>
struct gen<md::named>
{
    static md::named make(int d) { return {::make<std::string>(d), ::make<int>(d)}; }
};
template <typename T>
struct gen<std::optional<T>>
{
    static std::optional<T> make(int d)
    {
        if (choose(2))
            return ::make<T>(d - 1);
        return {};
    }
};
template <typename... Ts>
struct gen<std::tuple<Ts...>>
{
    static std::tuple<Ts...> make(int d) { return std::tuple<Ts...>{::make<Ts>(d)...}; }
};
template <typename... Ts>
struct gen<std::variant<Ts...>>
{
    static std::variant<Ts...> make(int d)
    {
        using V = std::variant<Ts...>;
        V r;
        unsigned k = choose(sizeof...(Ts)), i = 0;
        ((i++ == k ? (void) (r = V{::make<Ts>(d - 1)}) : (void) 0), ...);
        return r;
    }
};
template <typename V>
struct gen_seq
{
    static V make(int d)
    {
        V r;
        for (int n = size_for(d); n > 0; --n)
            r = r.push_back(::make<typename V::value_type>(d - 1));
        return r;
    }
};
template <typename T>
struct gen<immer::vector<T>> : gen_seq<immer::vector<T>>
{};
template <typename T>
struct gen<immer::array<T>> : gen_seq<immer::array<T>>
{};
template <typename T>
struct gen<immer::flex_vector<T>>
{
    static immer::flex_vector<T> make(int d)
    {
        auto r = gen_seq<immer::flex_vector<T>>::make(d);
        if (choose(3) == 2)
            r = gen_seq<immer::flex_vector<T>>::make(d - 1) + r;
        if (choose(3) == 2 && r.size() > 2)
            r = r.drop(1 + choose(2));
        return r;
    }
};
template <typename T>
struct gen<immer::box<T>>
{
    static immer::box<T> make(int d) { return immer::box<T>{::make<T>(d - 1)}; }
};
template <typename T>
struct gen<immer::set<T>>
{
    static immer::set<T> make(int d)
    {
        immer::set<T> r;
        for (int n = size_for(d); n > 0; --n) {
            auto x = ::make<T>(d - 1);
            if constexpr (std::is_same_v<T, int>)
                if (choose(2))
                    x += n * 37;
            r = r.insert(x);
        }
        return r;
    }
};
template <typename K>
K make_key(int d, int n)
{
    auto x = make<K>(d - 1);
    if constexpr (std::is_same_v<K, int>) {
        if (choose(2))
            x = (int) ((unsigned) x + n * 37u);
    } else if (choose(2))
        x += std::to_string(n);
    return x;
}
template <typename K, typename T>
struct gen<immer::map<K, T>>
{
    static immer::map<K, T> make(int d)
    {
        immer::map<K, T> r;
        for (int n = size_for(d); n > 0; --n) {
            auto k = make_key<K>(d, n);
            auto v = ::make<T>(d - 1);
            if constexpr (std::is_same_v<T, md::item> || std::is_same_v<T, md::named>)
                v.id = k;
            r = r.set(k, v);
        }
        return r;
    }
};
template <>
struct gen<md::snake>
{
    static md::snake make(int d)
    {
        return {::make<int>(d), ::make<std::string>(d), ::make<immer::vector<int>>(d - 1), ::make<std::optional<int>>(d)};
    }
};
template <>
struct gen<md::camel>
{
    static md::camel make(int d)
    {
        return {::make<int>(d), ::make<std::string>(d), ::make<immer::vector<int>>(d - 1)};
    }
};
template <typename A, typename B>
struct gen<md::two<A, B>>
{
    static md::two<A, B> make(int d)
    {
        auto a = ::make<A>(d - 1);
        auto b = ::make<B>(d - 1);
        return {a, b};
    }
};
template <>
struct gen<md::tree>
{
    static md::tree make(int d)
    {
        md::tree t{::make<std::string>(d), {}};
        if (d > 0)
            for (int n = choose(4); n > 0; --n)
                t.kids = t.kids.push_back(make(d - 1));
        return t;
    }
};
template <>
struct gen<md::root>
{
    static md::root make(int d)
    {
        md::root r;
        r.choices = ::make<decltype(r.choices)>(d - 1);
        r.lists   = ::make<decltype(r.lists)>(d - 1);
        r.pairs   = ::make<decltype(r.pairs)>(d - 1);
        r.boxed   = ::make<decltype(r.boxed)>(d);
        r.ids     = ::make<decltype(r.ids)>(d - 1);
        r.opts    = ::make<decltype(r.opts)>(d - 1);
        r.col     = ::make<md::color>(d);
        r.sub     = ::make<decltype(r.sub)>(d - 1);
        r.cells   = ::make<decltype(r.cells)>(d - 1);
        return r;
    }
};
template <>
struct gen<md::act_a>
{
    static md::act_a make(int d) { return {::make<int>(d)}; }
};
template <>
struct gen<md::act_b>
{
    static md::act_b make(int d) { return {::make<std::string>(d)}; }
};
template <>
struct gen<md::dbg_model>
{
    static md::dbg_model make(int d) { return {::make<int>(d), ::make<immer::vector<int>>(d - 1)}; }
};
using dbg = lager::debugger<md::act, md::dbg_model, lager::deps<>>;
template <>
struct gen<dbg::step>
{
    static dbg::step make(int d) { return {::make<md::act>(d), ::make<md::dbg_model>(d - 1)}; }
};
template <>
struct gen<dbg::model>
{
    static dbg::model make(int d)
    {
        dbg::model m;
        m.cursor  = choose(4);
        m.paused  = choose(2);
        m.init    = ::make<md::dbg_model>(d - 1);
        m.history = ::make<immer::vector<dbg::step>>(d - 1);
        m.pending = ::make<immer::vector<md::act>>(d - 1);
        return m;
    }
};

// ----------------------------------------------------------- well-formed ----
// visits everything in a value; answers false when its parts disagree
template <typename T>
struct walk
{
    static bool ok(const T& x)
    {
        volatile unsigned char sum = 0;
        for (std::size_t i = 0; i < sizeof(T); ++i)
            sum = sum + reinterpret_cast<const volatile unsigned char*>(&x)[i];
        return true;
    }
};
template <typename T>
bool ok(const T& x)
{
    return walk<T>::ok(x);
}
template <>
struct walk<std::string>
{
    static bool ok(const std::string& s)
    {
        volatile unsigned char sum = 0;
        for (auto c : s)
            sum = sum + c;
        return s.c_str()[s.size()] == 0;
    }
};
template <>
struct walk<md::color>
{
    static bool ok(const md::color& c) { return c == md::color::red || c == md::color::green || c == md::color::blue; }
};
template <>
struct walk<md::cell>
{
    static bool ok(const md::cell& c) { return ::ok(*c.p); }
};
template <>
struct walk<md::leaf>
{
    static bool ok(const md::leaf& x) { return ::ok(x.i) && ::ok(x.d) && ::ok(x.s); }
};
template <>
struct walk<md::item>
{
    static bool ok(const md::item& x) { return ::ok(x.id) && ::ok(x.name) && ::ok(x.c); }
};
template <>
struct walk<md::named>
{
    static bool ok(const md::named& x) { return ::ok(x.id) && ::ok(x.n); }
};
template <typename T>
struct walk<std::optional<T>>
{
    static bool ok(const std::optional<T>& x) { return !x || ::ok(*x); }
};
template <typename... Ts>
struct walk<std::tuple<Ts...>>
{
    static bool ok(const std::tuple<Ts...>& x)
    {
        return std::apply([](auto&&... e) { return (::ok(e) && ...); }, x);
    }
};
template <typename... Ts>
struct walk<std::variant<Ts...>>
{
    static bool ok(const std::variant<Ts...>& x)
    {
        return !x.valueless_by_exception() && std::visit([](auto&& e) { return ::ok(e); }, x);
    }
};
template <typename V>
struct walk_seq
{
    static bool ok(const V& v)
    {
        std::size_t n = 0;
        for (auto&& x : v) {
            if (!::ok(x) || !::ok(v[n]))
                return false;
            ++n;
        }
        return n == v.size();
    }
};
template <typename T>
struct walk<immer::vector<T>> : walk_seq<immer::vector<T>>
{};
template <typename T>
struct walk<immer::array<T>> : walk_seq<immer::array<T>>
{};
template <typename T>
struct walk<immer::flex_vector<T>> : walk_seq<immer::flex_vector<T>>
{};
template <typename T>
struct walk<immer::box<T>>
{
    static bool ok(const immer::box<T>& x) { return ::ok(x.get()); }
};
template <typename T>
struct walk<immer::set<T>>
{
    static bool ok(const immer::set<T>& v)
    {
        std::size_t n = 0;
        for (auto&& x : v) {
            ++n;
            if (!::ok(x) || v.count(x) != 1)
                return false;
        }
        return n == v.size();
    }
};
template <typename K, typename T>
struct walk<immer::map<K, T>>
{
    static bool ok(const immer::map<K, T>& v)
    {
        std::size_t n = 0;
        for (auto&& x : v) {
            ++n;
            if (!::ok(x.first) || !::ok(x.second) || v.find(x.first) != &x.second)
                return false;
            if constexpr (std::is_same_v<T, md::item> || std::is_same_v<T, md::named>)
                if (x.second.id != x.first)
                    return false;
        }
        return n == v.size();
    }
};
template <>
struct walk<md::snake>
{
    static bool ok(const md::snake& x) { return ::ok(x.first_value) && ::ok(x.second_one) && ::ok(x.numbers) && ::ok(x.maybe_it); }
};
template <>
struct walk<md::camel>
{
    static bool ok(const md::camel& x) { return ::ok(x.first_value) && ::ok(x.second_one) && ::ok(x.some_numbers); }
};
template <typename A, typename B>
struct walk<md::two<A, B>>
{
    static bool ok(const md::two<A, B>& x) { return ::ok(x.a) && ::ok(x.b); }
};
template <>
struct walk<md::tree>
{
    static bool ok(const md::tree& x) { return ::ok(x.label) && ::ok(x.kids); }
};
template <>
struct walk<md::root>
{
    static bool ok(const md::root& r)
    {
        return ::ok(r.choices) && ::ok(r.lists) && ::ok(r.pairs) && ::ok(r.boxed) && ::ok(r.ids) && ::ok(r.opts) &&
               ::ok(r.col) && ::ok(r.sub) && ::ok(r.cells);
    }
};
template <>
struct walk<md::act_b>
{
    static bool ok(const md::act_b& x) { return ::ok(x.why); }
};
template <>
struct walk<md::dbg_model>
{
    static bool ok(const md::dbg_model& x) { return ::ok(x.n) && ::ok(x.xs); }
};
template <>
struct walk<dbg::step>
{
    static bool ok(const dbg::step& x) { return ::ok(x.action) && ::ok(x.model); }
};
template <>
struct walk<dbg::model>
{
    static bool ok(const dbg::model& x) { return ::ok(x.init) && ::ok(x.history) && ::ok(x.pending); }
};

// ---------------------------------------------------------------- storage ----
struct DiskError : std::exception
{
    const char* what() const noexcept override { return "disk error"; }
};
// delivers the data in pieces; may fail with an error at some offset
struct Disk : std::streambuf
{
    std::string data;
    std::size_t at = 0, fail = ~std::size_t{0};
    int style;
    bool failed = false;
    std::uint64_t calls = 0;
    Disk(std::string d, int st)
        : data{std::move(d)}
        , style{st}
    {}
    int_type underflow() override
    {
        at = gptr() ? gptr() - data.data() : 0;
        if (++calls > 4 * data.size() + 1000)
            sim::violation("loading ends", "the loader keeps reading past the end of the data");
        if (at >= fail) {
            failed = true;
            throw DiskError{};
        }
        auto end = std::min(data.size(), fail);
        if (at >= end)
            return traits_type::eof();
        std::size_t n = end - at;
        if (style == 1)
            n = 1;
        else if (style == 2)
            n = std::min<std::size_t>(n, 7);
        setg(data.data() + at, data.data() + at, data.data() + at + n);
        return traits_type::to_int_type(*gptr());
    }
};

template <bool Inline, typename T>
std::string save_(const T& x, Format f)
{
    NoFail nf;
    std::ostringstream os;
    switch (f) {
    case f_json: {
        cereal::JSONOutputArchive ar{os};
        ar(x);
        break;
    }
    case f_binary: {
        cereal::BinaryOutputArchive ar{os};
        ar(x);
        break;
    }
    case f_portable: {
        cereal::PortableBinaryOutputArchive ar{os};
        ar(x);
        break;
    }
    default:
        if constexpr (Inline) {
            return lager::to_json(x);
        } else {
            T y = x;
            {
                cereal::JSONOutputArchive ar{os};
                save_inline(ar, y);
            }
            if (os.str().empty())
                return "[]";
        }
    }
    return os.str();
}
template <bool Inline, typename T>
void load_(T& x, std::streambuf& b, Format f)
{
    std::istream is{&b};
    switch (f) {
    case f_json: {
        cereal::JSONInputArchive ar{is};
        ar(x);
        break;
    }
    case f_binary: {
        cereal::BinaryInputArchive ar{is};
        ar(x);
        break;
    }
    case f_portable: {
        cereal::PortableBinaryInputArchive ar{is};
        ar(x);
        break;
    }
    default:
        if (!Inline && choose(2)) {
            cereal::JSONInputArchive ar{is};
            load_inline(ar, x); // over whatever is there
        } else {
            std::string s{std::istreambuf_iterator<char>{is}, {}};
            x = lager::from_json<T>(std::move(s));
        }
    }
}

// damage: what a torn write, a bad sector or a careless edit leaves behind
std::string damage(std::string s, Format f)
{
    int n = 1 + choose(3);
    for (int i = 0; i < n; ++i) {
        sim::Span sp;
        auto pos = [&] { return s.empty() ? 0u : choose(s.size()); };
        bool text = f == f_json || f == f_inline;
        switch (choose(text ? 9 : 8)) {
        case 0:
            fault("data cut");
            s.resize(pos());
            break;
        case 1:
            fault("byte changed");
            if (!s.empty()) {
                auto p = pos();
                s[p]   = (char) (s[p] ^ (1 + choose(255)));
            }
            break;
        case 2: { // an eight byte word
            fault("word changed");
            static const std::uint64_t w[] = {0, 1, 2, 33, 255, 65536, 1ull << 31, 1ull << 32, 1ull << 40, ~0ull, 1ull << 63};
            auto p = pos();
            auto v = w[choose(11)];
            for (int k = 0; k < 8 && p + k < s.size(); ++k)
                s[p + k] = (char) (v >> (8 * k));
            break;
        }
        case 3: {
            fault("bytes inserted");
            auto p = pos();
            s.insert(p, std::string(1 + choose(9), (char) choose(256)));
            break;
        }
        case 4: {
            fault("bytes lost");
            auto p = pos();
            s.erase(p, 1 + choose(20));
            break;
        }
        case 5: {
            fault("part duplicated");
            auto p = pos();
            auto q = std::min<std::size_t>(s.size() - p, 1 + choose(60));
            s.insert(pos(), s.substr(p, q));
            break;
        }
        case 6: { // a part written over with another: a misdirected write
            fault("part overwritten");
            auto p = pos(), q = pos();
            auto k = std::min<std::size_t>(s.size() - std::max(p, q), 1 + choose(40));
            auto t = s.substr(p, k);
            s.replace(q, k, t);
            break;
        }
        case 7: {
            fault("zeroed tail");
            auto p = pos();
            for (; p < s.size(); ++p)
                s[p] = 0;
            break;
        }
        default: { // one token for another
            fault("token changed");
            static const char* t[] = {"null", "true", "-1", "1e999", "\"\"", "\"x\"", "[]", "{}", "[1,2]",
                                      "{\"a\":1}", "99999999999999999999999", "0.5", "-9223372036854775808"};
            std::vector<std::pair<std::size_t, std::size_t>> toks;
            for (std::size_t p = 0; p < s.size();) {
                auto st = p;
                if (s[p] == '"') {
                    for (++p; p < s.size() && s[p] != '"'; ++p)
                        if (s[p] == '\\')
                            ++p;
                    p = std::min(p + 1, s.size());
                    toks.push_back({st, p});
                } else if (std::isalnum((unsigned char) s[p]) || s[p] == '-') {
                    while (p < s.size() && (std::isalnum((unsigned char) s[p]) || s[p] == '-' || s[p] == '.' || s[p] == '+'))
                        ++p;
                    toks.push_back({st, p});
                } else
                    ++p;
            }
            if (!toks.empty()) {
                auto& k = toks[choose(toks.size())];
                s.replace(k.first, k.second - k.first, t[choose(13)]);
            }
            break;
        }
        }
    }
    return s;
}

std::string head(const std::string& s)
{
    std::string r;
    for (unsigned char c : s.substr(0, 300))
        if (c >= 32 && c < 127)
            r += (char) c;
        else if (c == '\n')
            r += ' ';
        else
            r += sim::fmt("\\x%02x", c);
    return r;
}

long long h(const std::string& s)
{
    std::uint64_t x = 14695981039346656037ull;
    for (unsigned char c : s)
        x = (x ^ c) * 1099511628211ull;
    return (long long) (x & 0xffffffff);
}

md::selfish gen<md::selfish>::make(int d) { return {::make<int>(d), ::make<immer::vector<std::string>>(d)}; }

// to_json() takes what is saved by a save(); types with one serialize() do not
// compile with it, and are written with save_inline()
template <typename T, bool Inline = true>
void run()
{
    auto f    = (Format) choose(4);
    auto save = [](const T& x, Format f) { return save_<Inline>(x, f); };
    auto load = [](T& x, std::streambuf& b, Format f) { load_<Inline>(x, b, f); };
    g_text = f == f_json || f == f_inline;
    int depth = 1 + choose(sim::g_thorough ? 4 : 3);
    auto v      = make<T>(depth);
    auto target = make<T>(depth - 1);
    auto keep   = target; // shares structure with the target
    auto bytes  = save(v, f);
    auto before = save(keep, f);
    int style   = choose(3);
    int mode    = choose(4);
    ev("saved", f, (long long) bytes.size(), h(bytes));
    SIM_CHECK("C23", ok(v), "harness: a generated value is not well formed");
    sim::nontrivial();
    switch (mode) {
    default: { // intact
        Disk d{bytes, style};
        try {
            load(target, d, f);
        } catch (const std::exception& e) {
            sim::violation("saved data loads", sim::fmt("intact data is refused: %s; data: %s", e.what(), head(bytes).c_str()));
        }
        SIM_CHECK("C23", ok(target), "a loaded value is not well formed; data: %s", head(bytes).c_str());
        SIM_CHECK("C23", target == v && !(target != v), "saved %s; loaded back over %s it is %s", head(bytes).c_str(),
                  head(before).c_str(), head(save(target, f)).c_str());
        SIM_CHECK("C23", save(target, f) == bytes, "saved %s; loaded and saved again it is %s", head(bytes).c_str(),
                  head(save(target, f)).c_str());
        ev("equal");
        break;
    }
    case 2: { // damaged or failing storage
        auto data = choose(4) ? damage(bytes, f) : bytes;
        Disk d{data, style};
        if (choose(4) == 0) {
            d.fail = data.empty() ? 0 : choose(data.size());
        }
        bool threw      = false;
        auto limit      = sim::alloc_limit;
        sim::alloc_limit = 1 << 20; // a damaged size must not take all memory
        try {
            load(target, d, f);
        } catch (const std::exception& e) {
            threw = true;
        }
        sim::alloc_limit = limit;
        if (d.failed)
            fault("read error");
        NoFail nf;
        SIM_CHECK("C23", ok(target), "after loading damaged data %s the value is not well formed", head(data).c_str());
        if (!threw || choose(2)) {
            // (a text archive cannot hold every string a damaged one yields)
            auto g     = f_binary;
            auto again = save(target, g);
            T back;
            std::stringbuf b{again};
            try {
                load(back, b, g);
            } catch (const std::exception& e) {
                sim::violation("a loaded value is a value",
                               sim::fmt("after loading damaged data %s the value cannot be saved and loaded: %s", head(data).c_str(), e.what()));
            }
            SIM_CHECK("C23", save(back, g) == again, "after loading damaged data %s the value changes when saved and loaded",
                      head(data).c_str());
        }
        ev(threw ? "refused" : "accepted", (long long) data.size(), h(data));
        break;
    }
    case 3: { // memory runs out
        Disk d{bytes, style};
        bool threw = false;
        sim::arm_alloc_failure(1 + choose(40));
        try {
            load(target, d, f);
        } catch (const std::bad_alloc&) {
            threw = true;
        } catch (const std::exception& e) {
            sim::arm_alloc_failure(0);
            if (!sim::alloc_failure_fired())
                throw;
            threw = true;
        }
        bool fired = sim::alloc_failure_fired();
        sim::arm_alloc_failure(0);
        if (fired)
            fault("allocation failure");
        // (what the target holds after it threw is up to the immer containers,
        // which change in place; it must only still be destructible)
        if (!threw)
            SIM_CHECK("C23", target == v, "an allocation failure was swallowed: loaded %s from %s",
                      head(save(target, f)).c_str(), head(bytes).c_str());
        ev(threw ? "no memory" : "loaded");
        break;
    }
    }
    SIM_CHECK("C23", ok(keep) && save(keep, f) == before, "loading changed another value: %s became %s", head(before).c_str(),
              head(save(keep, f)).c_str());
}

} // namespace

SIM_SCENARIO(cereal_history)
{
    auto live = md::cell::live;
    switch (choose(24)) {
    case 23: run<md::selfish>(); break;
    case 22: run<md::kin<3>, false>(); break;
    case 0: run<immer::vector<int>>(); break;
    case 20: run<immer::vector<md::kins>>(); break;
    case 21: run<md::kins>(); break;
    case 1: run<immer::flex_vector<std::string>>(); break;
    case 2: run<immer::array<md::leaf>>(); break;
    case 3: run<immer::box<md::leaf>>(); break;
    case 4: run<immer::map<std::string, int>>(); break;
    case 5: run<immer::map<int, md::item>>(); break;
    case 6: run<immer::set<std::string>>(); break;
    case 7: run<md::choice>(); break;
    case 8: run<std::tuple<int, std::string, std::optional<double>>, false>(); break;
    case 9: run<immer::vector<immer::box<md::leaf>>>(); break;
    case 10: run<md::root, false>(); break;
    case 11: run<immer::vector<immer::vector<immer::vector<int>>>>(); break;
    case 12: run<md::snake, false>(); break;
    case 13: run<md::tree, false>(); break;
    case 14: run<immer::map<std::string, immer::map<int, immer::set<int>>>>(); break;
    case 15: run<md::two<immer::box<md::cell>, immer::array<immer::vector<md::cell>>>, false>(); break;
    case 16: run<immer::flex_vector<std::tuple<md::color, immer::set<int>>>, false>(); break;
    case 17: run<immer::map<std::string, md::named>>(); break;
    case 18: run<dbg::model, false>(); break;
    default:
#if 1
        run<md::camel, false>();
#else
        run<immer::vector<md::choice>>();
#endif
        break;
    }
    SIM_CHECK("C23", md::cell::live == live, "%ld parts of loaded values were never destroyed", md::cell::live - live);
}
