// The operations of the heap, one function each, for analyses that follow a sequence of them.
// Never linked into a program and never run.
#include "Srl/Srl.h"
#include "Srl/Lib.h"

namespace drv {

using namespace Srl;
using namespace Srl::Lib;

struct Wide { uint64_t a, b, c; };
struct alignas(16) Widest { uint64_t a, b; };
struct Link { Link* next; uint32_t value; Link(uint32_t v) : next(nullptr), value(v) { } };

Heap*     make()                                   { return new Heap(); }
void      destroy(Heap* h)                         { delete h; }
uint8_t*  get_1(Heap& h, size_t n)                 { return h.get_mem<uint8_t>(n); }
uint16_t* get_2(Heap& h, size_t n)                 { return h.get_mem<uint16_t>(n); }
uint32_t* get_4(Heap& h, size_t n)                 { return h.get_mem<uint32_t>(n); }
uint64_t* get_8(Heap& h, size_t n)                 { return h.get_mem<uint64_t>(n); }
Wide*     get_24(Heap& h, size_t n)                { return h.get_mem<Wide>(n); }
Widest*   get_16(Heap& h, size_t n)                { return h.get_mem<Widest>(n); }
Link*     create(Heap& h, uint32_t v)              { return h.create<Link>(v); }
void      put(Heap& h, uint8_t* p, size_t n)       { h.put_mem(p, n); }
void      clear(Heap& h)                           { h.clear(); }
Heap*     moved(Heap& h)                           { return new Heap(std::move(h)); }
void      assign(Heap& to, Heap& from)             { to = std::move(from); }

}
