// A tree that is loaded from, and items that are skipped by, a parser which yields whatever an analysis wants it to.
// Never linked into a program and never run.
#include "Srl/Srl.h"
#include "Srl/Lib.h"
#include <list>

namespace drv {

using namespace Srl;
using namespace Srl::Lib;

extern "C" int srl_next_item();        // 0: an end of a scope, 1: an array, 2: an object, otherwise a value

struct Any : Parser {
    Format get_format() const override                                    { return Format::Binary; }
    void   write(const Value&, const MemBlock&, Out&) override            { }
    void   clear() override                                               { }
    std::pair<MemBlock, Value> read(In&) override
    {
        switch(srl_next_item()) {
            case 0  : return { MemBlock(), Value(Type::Scope_End) };
            case 1  : return { MemBlock(), Value(Type::Array) };
            case 2  : return { MemBlock(), Value(Type::Object) };
            default : return { MemBlock(), Value(Type::Null) };
        }
    }
};

Any*  parser()                                  { return new Any(); }
Tree* tree()                                    { return new Tree(Type::Array); }
void  load(Tree& t, Any& p, const uint8_t* b)   { t.load_source(In::Source(b, 1), p); }

struct Nothing {
    void srl_resolve(Context&) { }
};
struct Late {
    void srl_resolve(Context& ctx) { ctx ("late", this->value); }
    int value = 0;
};
// what an element has more than its type asks for is skipped
void  skip(Tree& t, Any& p, const uint8_t* b)                 { std::list<Nothing> l; t.restore(l, In::Source(b, 1), p); }
void  find(Tree& t, Late& n, Any& p, const uint8_t* b)        { t.restore(n, In::Source(b, 1), p); }

}
