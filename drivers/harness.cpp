// Handles on the library's own operations for analyses that follow a sequence of them.
// Never linked into a program and never run.
#include "Srl/Srl.h"
#include "Srl/Lib.h"
#include <istream>
#include <ostream>

namespace drv {

using namespace Srl;
using namespace Srl::Lib;

Out*      out_to_stream(std::ostream& s)              { auto* o = new Out(); o->set(s); return o; }
Out*      out_to_vector(std::vector<uint8_t>& v)      { auto* o = new Out(); o->set(v); return o; }
In*       in_of_memory(const uint8_t* data, size_t n) { auto* i = new In(); i->set({ data, n }); return i; }
In*       in_of_stream(std::istream& s)               { auto* i = new In(); i->set(s); return i; }
PMsgPack* new_msgpack()                               { return new PMsgPack(); }
PSrl*     new_srl()                                   { return new PSrl(); }
PJson*    new_json(bool space)                        { return new PJson(space); }
void      finish(Out& out)                            { out.flush(); }

template<class P> void put(P& p, const Value& v, const uint8_t* name, size_t n, Out& out) { p.write(v, MemBlock(name, n), out); }
template<class P> void put_null(P& p, const uint8_t* name, size_t n, Out& out)   { p.write(Value(Type::Null), MemBlock(name, n), out); }
template<class P> void put_object(P& p, const uint8_t* name, size_t n, Out& out) { p.write(Value(Type::Object), MemBlock(name, n), out); }
template<class P> void put_array(P& p, const uint8_t* name, size_t n, Out& out)  { p.write(Value(Type::Array), MemBlock(name, n), out); }
template<class P> void put_end(P& p, Out& out) { p.write(Value(Type::Scope_End), MemBlock(), out); }
template<class P> void put_text(P& p, const uint8_t* data, size_t size, const uint8_t* name, size_t n, Out& out)
{
    p.write(Value(MemBlock(data, size), Type::String, Encoding::UTF8), MemBlock(name, n), out);
}
template<class P> void put_blob(P& p, const uint8_t* data, size_t size, const uint8_t* name, size_t n, Out& out)
{
    p.write(Value(MemBlock(data, size), Type::Binary), MemBlock(name, n), out);
}
template<class P> void put_literal(P& p, const uint8_t* data, size_t size, const uint8_t* name, size_t n, Out& out)
{
    p.write(Value(MemBlock(data, size), Type::UI64), MemBlock(name, n), out);
}
template<class P> void get(P& p, In& in, std::pair<MemBlock, Value>& o) { o = p.read(in); }
template<class P> void forget(P& p) { p.clear(); }

template<class P> void use(P& p, std::iostream& s, Out& out, In& in, std::pair<MemBlock, Value>& o)
{
    put(p, o.second, nullptr, 0, out); put_null(p, nullptr, 0, out); put_object(p, nullptr, 0, out);
    put_array(p, nullptr, 0, out); put_end(p, out); put_text(p, nullptr, 0, nullptr, 0, out);
    put_blob(p, nullptr, 0, nullptr, 0, out); put_literal(p, nullptr, 0, nullptr, 0, out); get(p, in, o); forget(p);
}

void all(std::iostream& s, Out& out, In& in, std::pair<MemBlock, Value>& o)
{
    use(*new_msgpack(), s, out, in, o); use(*new_srl(), s, out, in, o); use(*new_json(true), s, out, in, o);
}

size_t conv(Encoding to, const uint8_t* p, size_t n, Encoding from, std::vector<uint8_t>& buf, bool thr, size_t idx)
{
    return Tools::conv_charset(to, String(p, n, from), buf, thr, idx);
}

int8_t   x_i8(const int8_t& v)     { return Value(v).unwrap<int8_t>(); }
uint8_t  x_u8(const uint8_t& v)    { return Value(v).unwrap<uint8_t>(); }
int16_t  x_i16(const int16_t& v)   { return Value(v).unwrap<int16_t>(); }
uint16_t x_u16(const uint16_t& v)  { return Value(v).unwrap<uint16_t>(); }
int32_t  x_i32(const int32_t& v)   { return Value(v).unwrap<int32_t>(); }
uint32_t x_u32(const uint32_t& v)  { return Value(v).unwrap<uint32_t>(); }
int64_t  x_i64(const int64_t& v)   { return Value(v).unwrap<int64_t>(); }
uint64_t x_u64(const uint64_t& v)  { return Value(v).unwrap<uint64_t>(); }
bool     x_b(const bool& v)        { return Value(v).unwrap<bool>(); }
float    x_f(const float& v)       { return Value(v).unwrap<float>(); }
double   x_d(const double& v)      { return Value(v).unwrap<double>(); }

}
