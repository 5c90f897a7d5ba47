// Instantiates the templates of the public API so that the analyses see their code.
// Never linked into a program and never run.
#include "Srl/Srl.h"
#include "Srl/Lib.h"
#include <deque>
#include <list>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <tuple>
#include <unordered_map>
#include <vector>

namespace api {

using namespace Srl;

struct Flat {
    int a = 0; double b = 0; std::string s;
    void srl_resolve(Context& ctx) { ctx("a", a)("b", b)("s", s); }
};

struct Nested {
    Flat flat; std::vector<Flat> vec; std::list<std::string> strs; std::set<int> set;
    std::map<std::string, int> map; std::unordered_map<int, Flat> umap;
    std::pair<int, std::string> pair; std::tuple<int, std::string, Flat> tup;
    int arr[4]; char chars[8]; char16_t chars16[6]; char32_t chars32[5]; char one[1];
    char c; wchar_t wc; char32_t c32;
    std::deque<std::vector<int>> deq; Flat flats[2];
    std::u16string s16; std::wstring ws;
    Lib::HTable<std::string, int> ht; Lib::HTable<std::string, Flat> htn;
    long double ld;

    void srl_resolve(Context& ctx)
    {
        ctx("flat", flat)("vec", vec)("strs", strs)("set", set)("map", map)("umap", umap)
           ("pair", pair)("tup", tup)("arr", arr)("chars", chars)("chars16", chars16)("chars32", chars32)
           ("one", one)("c", c)("wc", wc)("c32", c32)("deq", deq)("flats", flats)("s16", s16)("ws", ws)
           ("ht", ht)("htn", htn)("ld", ld)("opt", c, CtxFlags::Optional)("optn", flat, CtxFlags::Optional);
    }
};

struct Split {
    int x = 0;
    void srl_store(StoreContext& ctx) const { ctx("x", x); ctx(x); }
    void srl_restore(RestoreContext& ctx) { ctx("x", x); ctx(x); }
};

struct Base {
    virtual ~Base() { }
    virtual const TypeID& srl_type_id() = 0;
    virtual void srl_resolve(Context& ctx) = 0;
};

struct Derived : Base {
    int v = 0;
    const TypeID& srl_type_id() override;
    void srl_resolve(Context& ctx) override { ctx("v", v); }
};

const auto derived_reg = register_type<Derived>("api::Derived");
const TypeID& Derived::srl_type_id() { return derived_reg; }

struct Pointers {
    int* ip = nullptr; Flat* fp = nullptr; Base* bp = nullptr; std::vector<int>* vp = nullptr;
    std::unique_ptr<int> ui; std::unique_ptr<Flat> uf; std::unique_ptr<Base> ub;
    std::shared_ptr<Flat> sf; std::shared_ptr<Base> sb; std::shared_ptr<int> si; std::weak_ptr<Flat> wf;
    std::vector<Flat*> vec;

    void srl_resolve(Context& ctx)
    {
        ctx("ip", ip)("fp", fp)("bp", bp)("vp", vp)("ui", ui)("uf", uf)("ub", ub)("sf", sf)("sb", sb)("si", si)("wf", wf)
           ("vec", vec);
    }
};

struct Binary {
    std::vector<uint8_t> raw; std::vector<uint32_t> words; Bytes bytes;

    void srl_resolve(Context& ctx)
    {
        VecWrap<uint8_t> w8(raw); VecWrap<uint32_t> w32(words);
        BitWrap bw(raw.data(), raw.size(), [this](size_t n) { raw.resize(n); return raw.data(); });
        ctx("w8", w8)("w32", w32)("bw", bw)("bytes", bytes);
    }
};

struct Numbers {
    bool b; int8_t i8; uint8_t ui8; int16_t i16; uint16_t ui16; int32_t i32; uint32_t ui32; int64_t i64; uint64_t ui64;
    float f; double d;

    void srl_resolve(Context& ctx)
    {
        ctx("b", b)("i8", i8)("ui8", ui8)("i16", i16)("ui16", ui16)("i32", i32)("ui32", ui32)("i64", i64)("ui64", ui64)
           ("f", f)("d", d);
    }
};

template<class P, class T> void io(T& o, std::iostream& stream)
{
    Tree tree;
    P parser;
    auto vec = tree.store(o, parser);
    tree.store(o, vec, parser);
    tree.store(o, (std::ostream&)stream, parser);
    tree.restore(o, vec, parser);
    tree.restore(o, (std::istream&)stream, parser);
    tree.restore(o, vec.data(), vec.size(), parser);
    tree.load_object(o);
    if constexpr(TpTools::is_scope(Lib::Switch<T>::type)) tree.root().template paste<T>(o);
    tree.load_source(vec, parser);
    tree.load_source(vec.data(), vec.size(), parser);
    tree.load_source((const char*)vec.data(), vec.size(), parser);
    tree.load_source((std::istream&)stream, parser);
    auto v2 = tree.to_source(parser);
    tree.to_source(v2, parser);
    tree.to_source((std::ostream&)stream, parser);
    tree.root().insert("o", o);
    tree.root().paste_field("o", o);
    tree.root().paste_field(0, o);
    tree.root().node("o").to_source(v2, parser);
}

template<class T> void all(T& o, std::iostream& s) { io<PJson>(o, s); io<PMsgPack>(o, s); io<PSrl>(o, s); }

template<class... T> void scalars(const Value& v) { (v.paste(*new T), ...); (v.unwrap<T>(), ...); }

void use(std::iostream& s)
{
    scalars<bool, int8_t, uint8_t, int16_t, uint16_t, int32_t, uint32_t, int64_t, uint64_t, float, double, long double,
            char, char16_t, char32_t, wchar_t, std::string, std::u16string, std::u32string, std::wstring>(Value());
    Flat f; Nested n; Split sp; Pointers p; Binary b; Numbers nu; std::vector<int> vi; std::map<std::string, Flat> m;
    std::vector<std::string> vs; std::string str; int i; double d; int ar[3];
    all(f, s); all(n, s); all(sp, s); all(p, s); all(b, s); all(nu, s); all(vi, s); all(m, s); all(vs, s); all(str, s);
    all(i, s); all(d, s); all(ar, s);
    f = Tree().restore<Flat>(vi.empty() ? std::vector<uint8_t>() : std::vector<uint8_t>(), PJson());

    Tree tree(Type::Array);
    PSrl parser;
    std::vector<uint8_t> vec;
    tree.pack(vec, parser, "a", i, "b", str);
    tree.unpack(vec, parser, "a", i, "b", str);
    Tree other(std::move(tree));
    tree = std::move(other);

    auto& root = tree.root();
    root.insert("x", 1, "y", str, "z", vi);
    root.insert("l", { 1, 2, 3 });
    root.insert("w", ScopeWrap([](Node& node) { node.insert("q", 1); }));
    root.insert("n", root.node("x"));
    root.insert("v", root.value("x"));
    root.insert(str);
    Union u = root["x"];
    if(auto o = u.unwrap_if<int>()) i = *o;
    if(auto o = u.unwrap_if<Flat>()) f = *o;
    i = u.unwrap<int>(); f = u.unwrap<Flat>(); str = u.unwrap<std::string>();
    u.copy_to(i); u.copy_to(f);
    i = u.get("a").get("b");
    if(auto o = u.try_get("a")) u = *o;
    root.paste_field("u", u);
    i = root.unwrap_field<int>("i"); i = root.value(0).unwrap<int>();
    f = root.node(0).unwrap<Flat>();
    tree.get("x"); tree.try_get("x"); root.try_get(0); root.get(0);
    root.has_node("x"); root.has_value("x");
    root.find_nodes("x", true); root.find_values("x", true); root.all_nodes(true); root.all_values(true);
    root.remove_node("x"); root.remove_node((size_t)0); root.remove_node(&root.node("n"));
    root.remove_value("x"); root.remove_value((size_t)0); root.remove_value(&root.value("n"));
    root.num_nodes(); root.num_values(); root.type(); root.name();

    Lib::HTable<std::string, std::string> ht;
    ht.insert("k", "v"); ht.upsert("k", "v"); ht.get("k"); ht.remove("k"); ht.extract("k");
    ht.remove_if([](const std::string&, std::string&) { return true; });
    ht.foreach([](const std::string&, std::string&) { });
    for(auto kv : ht) { (void)kv; }
    ht.clear();
    Lib::HTable<std::string, std::string> ht2(std::move(ht));
    ht = std::move(ht2);
}

}
