// C12: version tolerant reading maps every compatible schema change correctly.
// SOURCES:
#include "ser.inc.h"
#include "Awl/Io/Vts.h"

namespace {
using namespace ser;
using In = awl::io::VectorInputStream;
using Out = awl::io::VectorOutputStream;

namespace v1 {
struct Inner {
    bool b = false;
    uint16_t k = 0;
    AWL_REFLECT(b, k)
};
AWL_MEMBERWISE_EQUATABLE(Inner)
struct S {
    int32_t a = 0;
    std::string s;
    Inner i;
    std::optional<uint8_t> o;
    uint16_t z = 0;
    AWL_REFLECT(a, s, i, o, z)
};
AWL_MEMBERWISE_EQUATABLE(S)
}
using Extra = std::tuple<int32_t, std::string, bool, uint16_t, std::optional<uint8_t>, uint8_t>;

v1::Inner any_inner()
{
    v1::Inner i;
    i.b = any<bool>();
    i.k = any<uint16_t>();
    return i;
}
// an arbitrary value with a string of two characters
v1::S any_s()
{
    v1::S v;
    v.a = any<int32_t>();
    v.s.push_back(any<char>());
    v.s.push_back(any<char>());
    v.i = any_inner();
    if (vc_pick(0, 1, "has value"))
        v.o = any<uint8_t>();
    v.z = any<uint16_t>();
    return v;
}

template <class Struct, class... More> using VariantOf = awl::mp::tuple_to_variant<awl::tuple_cat_t<typename awl::mp::type_collector<Struct>::Tuple, typename awl::mp::type_collector<More>::Tuple..., Extra>>;

template <class S> Bytes written_versioned(const S& v, size_t* meta = nullptr)
{
    using V = awl::mp::variant_from_struct<S>;
    Bytes b;
    Out out(b);
    awl::io::Writer<V, Out> w;
    w.WriteNewPrototypes(out);
    if (meta)
        *meta = b.size();
    w.WriteV(out, v);
    w.WriteV(out, v);
    return b;
}
// reads what the previous version wrote; the value is read twice, the second time with the mapping found the first time
template <class New, class... More, class Old, class Check> void upgraded(const Old& v, Check check)
{
    Bytes b = written_versioned(v);
    uint8_t next = vc_val<uint8_t>("next");
    b.push_back(next);
    In in(b);
    awl::io::Reader<VariantOf<New, More...>, In> r;
    r.ReadOldPrototypes(in);
    for (int i = 0; i != 2; ++i) {
        New n;
        r.ReadV(in, n);
        check(n);
    }
    uint8_t x = 0;
    ENSURES_(in.Read(&x, 1) == 1 && x == next && in.End(), "exactly the written bytes are consumed");
}
template <class New, class... More, class Old> void rejected(const Old& v, bool allow_delete = true)
{
    size_t meta = 0;
    Bytes b = written_versioned(v, &meta);
    In in(b);
    awl::io::Reader<VariantOf<New, More...>, In> r;
    r.ReadOldPrototypes(in);
    r.allowDelete = allow_delete;
    Bytes data(b.begin() + meta, b.end());
    for (int i = 0; i != 2; ++i) {
        In din(data);
        New n;
        ENSURES_(vc_throws<awl::io::IoException>([&] { r.ReadV(din, n); }), "an incompatible version is reported");
    }
}
#define SAME(f) ENSURES_(n.f == v.f, "a field of both versions has its written value: " #f)
#define KEEPS(f, x) ENSURES_(n.f == (x), "an added field keeps its previous value: " #f)

namespace v2 {
using v1::Inner;
struct Same { int32_t a = 1; std::string s = "q"; Inner i; std::optional<uint8_t> o; uint16_t z = 2; AWL_REFLECT(a, s, i, o, z) };
struct Swapped { uint16_t z = 2; std::optional<uint8_t> o = uint8_t(9); Inner i; std::string s = "q"; int32_t a = 1; AWL_REFLECT(z, o, i, s, a) };
struct Rotated { Inner i; std::optional<uint8_t> o; uint16_t z = 2; int32_t a = 1; std::string s = "q"; AWL_REFLECT(i, o, z, a, s) };
struct AddedFirst { uint8_t n1 = 71; int32_t a = 1; std::string s = "q"; Inner i; std::optional<uint8_t> o; uint16_t z = 2; AWL_REFLECT(n1, a, s, i, o, z) };
struct AddedMiddle { int32_t a = 1; std::string s = "q"; Inner i; std::string n1 = "new"; Inner n2{true, 5}; std::optional<uint8_t> o; uint16_t z = 2; AWL_REFLECT(a, s, i, n1, n2, o, z) };
struct AddedLast { int32_t a = 1; std::string s = "q"; Inner i; std::optional<uint8_t> o; uint16_t z = 2; uint16_t n1 = 72; AWL_REFLECT(a, s, i, o, z, n1) };
struct NoFirst { std::string s = "q"; Inner i; std::optional<uint8_t> o; uint16_t z = 2; AWL_REFLECT(s, i, o, z) };
struct NoString { int32_t a = 1; Inner i; std::optional<uint8_t> o; uint16_t z = 2; AWL_REFLECT(a, i, o, z) };
struct NoInner { int32_t a = 1; std::string s = "q"; std::optional<uint8_t> o; uint16_t z = 2; AWL_REFLECT(a, s, o, z) };
struct NoOptional { int32_t a = 1; std::string s = "q"; Inner i; uint16_t z = 2; AWL_REFLECT(a, s, i, z) };
struct NoLast { int32_t a = 1; std::string s = "q"; Inner i; std::optional<uint8_t> o; AWL_REFLECT(a, s, i, o) };
struct Replaced { int32_t a = 1; uint16_t n1 = 73; std::optional<uint8_t> n2 = uint8_t(8); uint16_t z = 2; Inner i; AWL_REFLECT(a, n1, n2, z, i) };   // same number of fields
struct Other { std::string n1 = "new"; AWL_REFLECT(n1) };                                                                                                // no common field
struct Renamed { int32_t a = 1; std::string title = "q"; Inner i; std::optional<uint8_t> o; uint16_t z = 2; AWL_REFLECT(title, a, i, o, z) };
struct WrongScalar { int32_t z = 1; std::string s = "q"; AWL_REFLECT(z, s) };
struct WrongString { int32_t s = 1; int32_t a = 1; AWL_REFLECT(s, a) };
struct StructForScalar { Inner a; AWL_REFLECT(a) };
struct ScalarForStruct { int32_t i = 1; AWL_REFLECT(i) };
struct WrongOptional { std::optional<uint16_t> o; AWL_REFLECT(o) };
}
} // namespace
template <> class awl::io::FieldMap<v2::Renamed> {
public:
    static std::string_view GetNewName(std::string_view old_name) { return old_name == "s" ? "title" : old_name; }
};
namespace {
// the structure itself is nested and an element of collections
namespace nested {
struct Old {
    v1::S s;
    std::vector<v1::Inner> v;
    std::map<uint8_t, v1::Inner> m;
    std::optional<v1::Inner> o;
    uint8_t end = 0;
    AWL_REFLECT(s, v, m, o, end)
};
struct NewInner {
    uint16_t k = 3;
    uint8_t n1 = 74;
    bool b = false;
    AWL_REFLECT(k, n1, b)
};
struct NewS {
    uint16_t z = 2;
    NewInner i;
    int32_t a = 1;
    AWL_REFLECT(z, i, a)
};
struct New {
    uint8_t end = 0;
    std::vector<NewInner> v;
    NewS s;
    std::map<uint8_t, NewInner> m;
    std::optional<NewInner> o;
    AWL_REFLECT(end, v, s, m, o)
};
struct OnlyEnd {
    uint8_t end = 0;
    AWL_REFLECT(end)
};
}
// two structures in collections of the same kind: the names of the types of the collections are equal
namespace kinds {
struct A { int32_t x = 0; AWL_REFLECT(x) };
struct B { std::string x; AWL_REFLECT(x) };
struct Old { std::vector<A> va; std::vector<B> vb; B b; AWL_REFLECT(va, vb, b) };
struct New { std::vector<A> va; B b; AWL_REFLECT(va, b) };
struct Later { B b; std::vector<B> vb; AWL_REFLECT(b, vb) };
}
// structures without fields
namespace empty {
struct Nothing { AWL_TUPLIZABLE() static const awl::helpers::MemberList& get_member_names() { static const awl::helpers::MemberList m(""); return m; } };
}
// types that are written in the same way
namespace alike {
enum class E : uint8_t { P, Q };
struct Old { int32_t a = 0; uint64_t b = 0; std::vector<uint8_t> c; std::optional<uint16_t> d; AWL_REFLECT(a, b, c, d) };
struct New { std::optional<int16_t> d; std::string c; std::chrono::system_clock::time_point b; uint32_t a = 0; AWL_REFLECT(d, c, b, a) };
}
namespace bits {
struct Old { std::vector<bool> f; uint8_t end = 0; AWL_REFLECT(f, end) };
struct New { std::vector<uint8_t> f; uint8_t end = 0; AWL_REFLECT(f, end) };
}
} // namespace

VC_CONTRACT(changed, 14, "proof", "awl::io::Reader::ReadV, MapPrototypes, FindProtoMap, SkipField, SkipStruct, AttachMetadata; Writer::WriteV, WriteNewPrototypes",
            "common fields have their written values, added fields keep their values, removed ones are skipped; exactly the written bytes are consumed")
{
    v1::S v = any_s();
    switch (vc_case) {
    case 0: return upgraded<v2::Same>(v, [&](auto& n) { SAME(a); SAME(s); SAME(i); SAME(o); SAME(z); });
    case 1: return upgraded<v2::Swapped>(v, [&](auto& n) { SAME(a); SAME(s); SAME(i); SAME(o); SAME(z); });
    case 2: return upgraded<v2::Rotated>(v, [&](auto& n) { SAME(a); SAME(s); SAME(i); SAME(o); SAME(z); });
    case 3: return upgraded<v2::AddedFirst>(v, [&](auto& n) { SAME(a); SAME(s); SAME(i); SAME(o); SAME(z); KEEPS(n1, 71); });
    case 4: return upgraded<v2::AddedMiddle>(v, [&](auto& n) { SAME(a); SAME(s); SAME(i); SAME(o); SAME(z); KEEPS(n1, "new"); KEEPS(n2, (v1::Inner{true, 5})); });
    case 5: return upgraded<v2::AddedLast>(v, [&](auto& n) { SAME(a); SAME(s); SAME(i); SAME(o); SAME(z); KEEPS(n1, 72); });
    case 6: return upgraded<v2::NoFirst>(v, [&](auto& n) { SAME(s); SAME(i); SAME(o); SAME(z); });
    case 7: return upgraded<v2::NoString>(v, [&](auto& n) { SAME(a); SAME(i); SAME(o); SAME(z); });
    case 8: return upgraded<v2::NoInner>(v, [&](auto& n) { SAME(a); SAME(s); SAME(o); SAME(z); });
    case 9: return upgraded<v2::NoOptional>(v, [&](auto& n) { SAME(a); SAME(s); SAME(i); SAME(z); });
    case 10: return upgraded<v2::NoLast>(v, [&](auto& n) { SAME(a); SAME(s); SAME(i); SAME(o); });
    case 11: return upgraded<v2::Replaced>(v, [&](auto& n) { SAME(a); SAME(i); SAME(z); KEEPS(n1, 73); KEEPS(n2, uint8_t(8)); });
    case 12: return upgraded<v2::Other>(v, [&](auto& n) { KEEPS(n1, "new"); });
    case 13: return upgraded<v2::Renamed>(v, [&](auto& n) { SAME(a); SAME(i); SAME(o); SAME(z); ENSURES_(n.title == v.s, "a renamed field has its written value"); });
    }
}
VC_CONTRACT(incompatible, 6, "proof", "awl::io::Reader::CheckTypesCompatible, FindProtoMap, ReadV", "a field whose type has changed is reported each time it is read, and so is a removed one when that is not allowed")
{
    v1::S v = any_s();
    switch (vc_case) {
    case 0: return rejected<v2::WrongScalar>(v);
    case 1: return rejected<v2::WrongString>(v);
    case 2: return rejected<v2::StructForScalar>(v);
    case 3: return rejected<v2::ScalarForStruct>(v);
    case 4: return rejected<v2::WrongOptional>(v);
    case 5: return rejected<v2::NoLast>(v, false);
    }
}
VC_CONTRACT(no_deletion, 1, "proof", "awl::io::Reader::ReadV", "without removed fields everything is read when removing is not allowed")
{
    v1::S v = any_s();
    Bytes b = written_versioned(v);
    In in(b);
    awl::io::Reader<VariantOf<v2::AddedMiddle>, In> r;
    r.ReadOldPrototypes(in);
    r.allowDelete = false;
    v2::AddedMiddle n;
    r.ReadV(in, n);
    SAME(a); SAME(s); SAME(i); SAME(o); SAME(z); KEEPS(n1, "new");
}
namespace {
nested::Old any_nested(bool empty)
{
    nested::Old v;
    v.s = any_s();
    for (int i = empty ? 0 : 2; i != 0; --i)
        v.v.push_back(any_inner());
    if (!empty) {
        v.m[3] = any_inner();
        v.m[200] = any_inner();
        v.o = any_inner();
    }
    v.end = any<uint8_t>();
    return v;
}
} // namespace
VC_CONTRACT(nested_structures, 4, "bounded(collections of 0 or 2 elements, any contents)", "awl::io::Reader::ReadV, SkipField, SkipStruct; Read of collections of structures",
            "structures in fields and collections are mapped as well")
{
    nested::Old v = any_nested(vc_case % 2);
    if (vc_case < 2) {
        auto same = [](const v1::Inner& o, const nested::NewInner& n) { return o.b == n.b && o.k == n.k && n.n1 == 74; };
        upgraded<nested::New>(v, [&](auto& n) {
            ENSURES_(n.end == v.end && n.s.z == v.s.z && n.s.a == v.s.a && same(v.s.i, n.s.i), "the fields of nested structures have their written values");
            bool ok = n.v.size() == v.v.size() && n.m.size() == v.m.size() && bool(n.o) == bool(v.o);
            for (size_t i = 0; ok && i != v.v.size(); ++i)
                ok = same(v.v[i], n.v[i]);
            for (auto& [k, x] : v.m)
                ok = ok && n.m.count(k) && same(x, n.m[k]);
            if (ok && v.o)
                ok = same(*v.o, *n.o);
            ENSURES_(ok, "the structures of collections have their written values");
        });
    }
    else
        upgraded<nested::OnlyEnd, nested::Old>(v, [&](auto& n) { ENSURES_(n.end == v.end, "removed structures and collections are skipped"); });
}

VC_CONTRACT(same_kinds, 2, "proof", "awl::io::Reader::SkipField, FindProtoMap",
            "a removed collection of structures is skipped although a collection of other structures has the same name of the type")
{
    kinds::Old v;
    v.va.resize(1);
    v.va[0].x = any<int32_t>();
    v.vb.resize(1);
    v.vb[0].x = std::string(1, any<char>());
    v.b.x = std::string(2, any<char>());
    if (vc_case == 0)
        upgraded<kinds::New>(v, [&](auto& n) { ENSURES_(n.va.size() == 1 && n.va[0].x == v.va[0].x && n.b.x == v.b.x, "the common fields have their written values"); });
    else
        upgraded<kinds::Later>(v, [&](auto& n) { ENSURES_(n.vb.size() == 1 && n.vb[0].x == v.vb[0].x && n.b.x == v.b.x, "the common fields have their written values"); });
}
VC_CONTRACT(same_representation, 1, "proof", "awl::io::Reader::ReadV, AreTypesEqual; awl::mp::type_descriptor",
            "types that are described in the same way are read from each other's data")
{
    alike::Old v;
    v.a = any<int32_t>();
    v.b = any<uint64_t>();
    v.c.push_back(any<uint8_t>());
    v.c.push_back(any<uint8_t>());
    if (vc_pick(0, 1, "has value"))
        v.d = any<uint16_t>();
    upgraded<alike::New>(v, [&](auto& n) {
        ENSURES_(n.a == uint32_t(v.a) && uint64_t(n.b.time_since_epoch().count()) == v.b, "integers and times have the written bits");
        ENSURES_(n.c.size() == 2 && uint8_t(n.c[0]) == v.c[0] && uint8_t(n.c[1]) == v.c[1], "a sequence has the written elements");
        ENSURES_(bool(n.d) == bool(v.d) && (!n.d || uint16_t(*n.d) == *v.d), "an optional has the written value");
    });
}
// KNOWN FINDING: vector<bool> is written as bits but its type is described as that of vector<uint8_t>
VC_CONTRACT(known_bits, 1, "proof", "awl::mp::type_descriptor, awl::io::Reader::AreTypesEqual", "a vector of bits is not read as a vector of bytes")
{
    bits::Old v;
    v.f = {true, false};
    v.end = 7;
    Bytes b = written_versioned(v);
    In in(b);
    awl::io::Reader<VariantOf<bits::New>, In> r;
    r.ReadOldPrototypes(in);
    bits::New n;
    bool threw = vc_throws<awl::io::IoException>([&] { r.ReadV(in, n); });
    ENSURES_(threw || (n.f.size() == 2 && n.f[0] == 1 && n.f[1] == 0 && n.end == 7), "it is reported or read correctly");
}
namespace {
namespace empties {
struct Old { uint8_t a = 0; empty::Nothing e; uint8_t c = 0; AWL_REFLECT(a, e, c) };
struct Filled { uint16_t n1 = 75; AWL_REFLECT(n1) };
struct New { uint8_t a = 0; Filled e; uint8_t c = 0; AWL_REFLECT(a, e, c) };
}
}
VC_CONTRACT(emptied, 1, "proof", "awl::io::Reader::ReadV", "fields added to a structure that had none keep their values")
{
    empties::Old v;
    v.a = any<uint8_t>();
    v.c = any<uint8_t>();
    upgraded<empties::New>(v, [&](auto& n) {
        ENSURES_(n.a == v.a && n.c == v.c, "the other fields have their written values");
        ENSURES_(n.e.n1 == 75, "an added field keeps its previous value");
    });
}
// names of types that have changed
VC_CONTRACT(renamed_types, 1, "proof", "awl::io::Reader::ReadOldPrototypes", "a type whose name has changed is mapped by the given names")
{
    v2::WrongScalar v;
    v.z = any<int32_t>();
    v.s = std::string(2, any<char>());
    Bytes b = written_versioned(v);
    In in(b);
    awl::io::Reader<awl::mp::variant_from_struct<v2::Other>, In> fails;
    {
        In in2(b);
        bool threw = vc_throws<awl::io::IoException>([&] { fails.ReadOldPrototypes(in2); });
        ENSURES_(threw, "an unknown type is reported");
    }
    awl::io::Reader<VariantOf<v2::WrongScalar>, In> same;
    same.ReadOldPrototypes(in, {{"unused", "float32_t"}});
    v2::WrongScalar n;
    same.ReadV(in, n);
    SAME(z); SAME(s);
}
// any previous version: the prototypes are data for the reader, so any of them can be given to it
namespace {
namespace any_old {
// names that begin with, end with, contain or resemble others
struct Inner { bool kk = false; uint16_t k = 0; AWL_REFLECT(kk, k) };
struct New {
    int32_t items = 11;
    std::string item = "old";
    Inner Item{true, 12};
    std::optional<uint8_t> an_item = uint8_t(13);
    std::vector<Inner> tem = std::vector<Inner>(1, Inner{true, 14});
    AWL_REFLECT(items, item, Item, an_item, tem)
};
constexpr int field_kinds = 8;
const char* const field_names[field_kinds] = {"items", "item", "Item", "an_item", "tem", "it", "items_", "_item"};
const char* const field_types[field_kinds] = {"int32_t", "sequence<int8_t>", nullptr, "optional<int8_t>", "sequence<struct>", "int16_t", nullptr, "sequence<struct>"};
const char* const type_table[] = {"int8_t", "int16_t", "int32_t", "sequence<int8_t>", "optional<int8_t>", "sequence<struct>"};
constexpr size_t type_count = 6;

struct Values {
    int32_t a = any<int32_t>();
    char s = any<char>();
    bool b = any<bool>();
    uint16_t k = any<uint16_t>();
    uint8_t o = any<uint8_t>();
    uint16_t gone = any<uint16_t>();
};
template <class T> void put(Bytes& b, const T& v)
{
    Bytes w = written(v);
    b.insert(b.end(), w.begin(), w.end());
}
// the same version for any sequence of different fields of the menu
inline void any_version(int max_fields, bool native, int first = -1)
{
    int n = int(vc_pick(first > 0 ? 1 : 0, uint64_t(max_fields), "fields"));
    bool reversed = vc_pick(0, native ? 1 : 0, "order of types") || (n % 2);                                // order of the type table
    bool inner_reversed = n % 2 == 0, inner_first = vc_pick(0, native ? 1 : 0, "order of structures") || n == 2;
    int f[8];
    for (int i = 0; i != n; ++i) {
        f[i] = i == 0 && first >= 0 ? first : int(vc_pick(0, field_kinds - 1, "field"));
        for (int j = 0; j != i; ++j)
            REQUIRES(f[i] != f[j]);
    }
    auto type_index = [&](const char* name) {
        for (size_t i = 0; i != type_count; ++i)
            if (std::strcmp(type_table[i], name) == 0)
                return reversed ? type_count - 1 - i : i;
        return size_t(0);
    };
    using FC = awl::DetachedPrototype::FieldContainer;
    awl::io::Metadata m;
    for (size_t i = 0; i != type_count; ++i)
        m.typeNames.push_back(type_table[reversed ? type_count - 1 - i : i]);
    std::vector<FC> fields, inner;
    for (int i = 0; i != n; ++i)
        fields.push_back(FC{field_names[f[i]], field_types[f[i]] ? type_index(field_types[f[i]]) : awl::Field::NoType});
    inner.push_back(inner_reversed ? FC{"k", type_index("int16_t")} : FC{"kk", type_index("int8_t")});
    inner.push_back(inner_reversed ? FC{"kk", type_index("int8_t")} : FC{"k", type_index("int16_t")});
    if (inner_first)
        m.prototypes.push_back(awl::DetachedPrototype(inner));
    m.prototypes.push_back(awl::DetachedPrototype(fields));
    if (!inner_first)
        m.prototypes.push_back(awl::DetachedPrototype(inner));

    Values v;
    Bytes b = written(m);
    auto put_inner = [&] {
        put(b, uint16_t(inner_first ? 0 : 1));
        if (inner_reversed) {
            put(b, v.k);
            put(b, v.b);
        }
        else {
            put(b, v.b);
            put(b, v.k);
        }
    };
    for (int twice = 0; twice != 2; ++twice) {
        put(b, uint16_t(inner_first ? 1 : 0));
        for (int i = 0; i != n; ++i) {
            if (f[i] == 0)
                put(b, v.a);
            else if (f[i] == 1)
                put(b, std::string(2, v.s));
            else if (f[i] == 2 || f[i] == 6)
                put_inner();
            else if (f[i] == 3)
                put(b, std::optional<uint8_t>(v.o));
            else if (f[i] == 5)
                put(b, v.gone);
            else {
                put(b, size_t(2));
                put_inner();
                put_inner();
            }
        }
    }
    bool has[field_kinds] = {};
    for (int i = 0; i != n; ++i)
        has[f[i]] = true;
    In in(b);
    awl::io::Reader<awl::mp::tuple_to_variant<awl::tuple_cat_t<typename awl::mp::type_collector<New>::Tuple, std::tuple<uint16_t>>>, In> r;
    r.ReadOldPrototypes(in);
    for (int twice = 0; twice != 2; ++twice) {
        New x;
        r.ReadV(in, x);
        ENSURES_(x.items == (has[0] ? v.a : 11) && x.item == (has[1] ? std::string(2, v.s) : "old"), "scalars and strings: written if common, kept if added");
        ENSURES_(x.Item.kk == (has[2] ? v.b : true) && x.Item.k == (has[2] ? v.k : 12) && x.an_item == std::optional<uint8_t>(has[3] ? v.o : 13), "structures and optionals: written if common, kept if added");
        ENSURES_(x.tem.size() == (has[4] ? 2u : 1u) && x.tem.back().kk == (has[4] ? v.b : true) && x.tem[0].k == (has[4] ? v.k : 14), "collections of structures: written if common, kept if added");
    }
    ENSURES_(in.End(), "exactly the written bytes are consumed");
}
}
} // namespace
VC_CONTRACT(any_previous_version, 8, "bounded(previous versions with up to 3 of 8 fields in any order, any values)", "awl::io::Reader::ReadV, MapPrototypes, AttachMetadata, SkipField, SkipStruct, ReadTuplizable",
            "whatever the fields of the previous version and their order are: common fields have their written values, added ones keep theirs, removed ones are skipped")
{
    any_old::any_version(3, false, vc_case);
}
VC_CONTRACT(any_previous_version_4, 8, "bounded(previous versions with up to 4 of 8 fields in any order, any values)@thorough", "awl::io::Reader::ReadV, MapPrototypes, AttachMetadata, SkipField, SkipStruct, ReadTuplizable",
            "whatever the fields of the previous version and their order are: common fields have their written values, added ones keep theirs, removed ones are skipped")
{
    any_old::any_version(4, false, vc_case);
}
VC_CONTRACT(any_previous_version_executed, 1, "enum(previous versions with up to 8 fields, executed)", "awl::io::Reader::ReadV, MapPrototypes, AttachMetadata, SkipField, SkipStruct, ReadTuplizable",
            "whatever the fields of the previous version and their order are: common fields have their written values, added ones keep theirs, removed ones are skipped")
{
    any_old::any_version(8, true);
}
