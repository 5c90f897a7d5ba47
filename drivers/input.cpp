// The operations of the input window, one function each, for analyses that follow a sequence of them.
// Never linked into a program and never run.
#include "Srl/Srl.h"
#include "Srl/Lib.h"
#include <istream>

namespace drv {

using namespace Srl;
using namespace Srl::Lib;

static const In::Error error = [] { throw Exception("The data ends too early."); };

In*  make()                                          { return new In(); }
void from_stream(In& in, std::istream& s)            { in.set(s); }
void from_memory(In& in, const uint8_t* p, size_t n) { in.set({ p, n }); }

const uint8_t* where(In& in)                      { return in.pointer(); }
void           move(In& in, size_t n)             { in.move(n, error); }
const uint8_t* peek(In& in, size_t n)             { return in.peek(n, error); }
bool           try_peek(In& in, size_t n)         { return in.try_peek(n); }
void           block(In& in, size_t n, MemBlock& o)   { o = in.read_block(n, error); }
uint8_t        byte(In& in)                       { return in.read_move<uint8_t>(error); }
uint32_t       word(In& in)                       { return in.read_move<uint32_t>(error); }
void           until(In& in, MemBlock& o)         { o = in.read_block_until(error, ';', '|'); }
size_t         skip_until(In& in)                 { return in.move_until(error, ';', '|'); }
size_t         skip_while(In& in)                 { return in.move_while(error, ';', '|'); }
size_t         skip_pair(In& in)                  { return in.move_until(error, std::array<const char, 2> { { '*', '/' } }); }
bool           at_pair(In& in)                    { return in.is_at_token(std::array<const char, 2> { { '*', '/' } }); }
size_t         text(In& in, std::vector<uint8_t>& o)
{
    return in.read_substitue(error, '"', o, 'Q', std::array<const char, 2> { { '\\', 'q' } }, 'T', std::array<const char, 3> { { '\\', 't', 't' } });
}

}
