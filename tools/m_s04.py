P = 'src/lib/PMsgPack.cpp'
M = [
    ('nfix', 'S04', 'caught', [(P, "if(i > -1 || i < -31) {", "if(i > -1 || i < -33) {")]),
    ('nfix0', 'S04', 'quiet', [(P, "if(i > -1 || i < -31) {", "if(i > -1 || i < -32) {")]),
    ('pfix', 'S04', 'caught', [(P, "if(i > 0x7F) {", "if(i > 0x80) {")]),
    ('u-neg', 'S04', 'caught', [(P, "if((i >= 0 && write_pfixnum(i, out)) || write_nfixnum(i, out)) {", "if(write_pfixnum((uint8_t)i, out) || write_nfixnum(i, out)) {")]),
    ('lk', 'S04', 'caught', [(P, "0xD2 /* Type::I32 */,\n            0xCE /* Type::UI32 */", "0xD2 /* Type::I32 */,\n            0xD2 /* Type::UI32 */")]),
    ('swap', 'S04', 'caught', [(P, "mem_out[i] = mem_in[N - i - 1];", "mem_out[i] = mem_in[N > 4 && i == 4 ? 4 : N - i - 1];")]),
    ('bin255', 'S04', 'caught', [(P, "if(block.size <= 255) {", "if(block.size <= 256) {")]),
    ('bin16', 'S04', 'caught', [(P, "} else if (block.size <= 0xFFFE) {\n            uint16_t sz = block.size;\n            out.write_byte(0xC5);", "} else if (block.size <= 0x10000) {\n            uint16_t sz = block.size;\n            out.write_byte(0xC5);")]),
    ('str31', 'S04', 'caught', [(P, "if(block.size <= 0x1F) {", "if(block.size <= 0x20) {")]),
    ('str8', 'S04', 'caught', [(P, "} else if(block.size <= 0xFE) {", "} else if(block.size <= 0x100) {")]),
    ('str8-255', 'S04', 'quiet', [(P, "} else if(block.size <= 0xFE) {", "} else if(block.size <= 0xFF) {")]),
    ('bool', 'S04', 'caught', [(P, "out.write_byte(val.pblock().ui64 ? 0xC3 : 0xC2);", "out.write_byte(val.pblock().ui64 ? 0xC2 : 0xC3);")]),
    ('elements-child', 'S04', 'caught', [(P, "this->scope_stack.top().elements++;", "if(!TpTools::is_scope(type) || this->scope->elements < 2) { this->scope_stack.top().elements++; }")]),
    ('elements-u16', 'S04', 'caught', [(P, "uint32_t scope_elems = this->scope->elements;", "uint16_t scope_elems16 = this->scope->elements; uint32_t scope_elems = scope_elems16;")]),
    ('name-missing', 'S04', 'caught', [(P, "            write_str(name, out);\n", "            if(name.size < 30) write_str(name, out);\n")]),
    ('scope-prefix', 'S04', 'caught', [(P, "type == Type::Object ? 0xDF : 0xDD", "type == Type::Object ? 0xDF : 0xDF")]),
    ('pop-not', 'S04', 'caught', [(P, "this->scope = this->scope_stack.size() > 0 ? &this->scope_stack.top() : nullptr;\n\n        return;", "this->scope = this->scope_stack.size() > 1 ? &this->scope_stack.top() : nullptr;\n\n        return;")]),
    ('r-fixneg', 'S04', 'caught', [(P, "val = val - (int)neg_max;", "val = val ? val - (int)neg_max : 0;")]),
    ('r-fixpos', 'S04', 'caught', [(P, "val = (0xFF >> 1) & prefix;", "val = (0xFF >> 1) & prefix; val &= 0x7E | (val < 100);")]),
    ('r-ui8', 'S04', 'caught', [(P, "case 0xCC : return read_num<Type::UI8>(in);", "case 0xCC : return read_num<Type::I8>(in);")]),
    ('r-str16', 'S04', 'caught', [(P, "             : prefix == 0xDA ? swap_bytes(in.read_move<uint16_t>(error))\n", "             : prefix == 0xDA ? in.read_move<uint16_t>(error)\n")]),
    ('r-strprefix', 'S04', 'caught', [(P, "(prefix >= 0xD9 && prefix <= 0xDB)", "(prefix >= 0xD8 && prefix <= 0xDB)")]),
    ('r-strprefix2', 'S04', 'caught', [(P, "(prefix >= 0xA0 && prefix <= 0xBF) ||", "(prefix >= 0xA0 && prefix < 0xBF) ||")]),
    ('r-scope16', 'S04', 'caught', [(P, "prefix & 2 ? Type::Object : Type::Array;", "prefix == 0xDE ? Type::Object : Type::Array;")]),
    ('r-scopefix', 'S04', 'caught', [(P, "size = 0xFF >> 4 & prefix;", "size = 0xFF >> 5 & prefix;")]),
    ('r-scope-size32', 'S04', 'caught', [(P, "                size = swap_bytes(size_be);\n\n            } else {", "                size = swap_bytes(size_be) & 0xFFFFFF;\n\n            } else {")]),
    ('r-elements', 'S04', 'caught', [(P, "if(this->scope->elements < 1) {", "if(this->scope->elements < 1 || this->scope->elements == 65535) {")]),
    # behaviour kept
    ('q-helper', 'S04', 'quiet', [(P, "    bool write_pfixnum(uint64_t i, Out& out)\n    {\n        if(i > 0x7F) {\n            return false;\n        }\n\n        out.write_byte(i);\n        return true;\n    }", "    bool write_pfixnum(uint64_t i, Out& out)\n    {\n        const bool fits = (i >> 7) == 0;\n        if(fits) { out.write((uint8_t)(i & 0x7F)); }\n        return fits;\n    }")]),
    ('q-swap', 'S04', 'quiet', [(P, "        for(auto i = 0U; i < N; i++) {\n            mem_out[i] = mem_in[N - i - 1];\n        }", "        std::reverse_copy(mem_in, mem_in + N, mem_out);"), (P, '#include "Srl/TpTools.h"\n', '#include "Srl/TpTools.h"\n#include <algorithm>\n')]),
    ('q-swap2', 'S04', 'quiet', [(P, "        for(auto i = 0U; i < N; i++) {\n            mem_out[i] = mem_in[N - i - 1];\n        }", "        auto* last = mem_in + N;\n        while(last != mem_in) { *mem_out++ = *--last; }")]),
    ('q-str', 'S04', 'quiet', [(P, "        if(block.size <= 0x1F) {\n            out.write_byte(0xA0 | block.size);\n", "        uint8_t head[5]; (void)head;\n        if(block.size < 32) {\n            out.write_byte(0xA0 + (uint8_t)block.size);\n")]),
    ('q-str-buf', 'S04', 'quiet', [(P, "            uint32_t sz = block.size;\n            out.write_byte(0xDB);\n            out.write(swap_bytes(sz));", "            uint8_t head[5] = { 0xDB, (uint8_t)(block.size >> 24), (uint8_t)(block.size >> 16), (uint8_t)(block.size >> 8), (uint8_t)block.size };\n            out.write(head, sizeof(head));")]),
    ('q-size-switch', 'S04', 'quiet', [(P, "        return prefix == 0xC4 ? in.read_move<uint8_t>(error)\n             : prefix == 0xC5 ? swap_bytes(in.read_move<uint16_t>(error))\n             : swap_bytes(in.read_move<uint32_t>(error));", "        size_t n = 0;\n        for(int left = 1 << (prefix - 0xC4); left > 0; left--) { n = n << 8 | in.read_move<uint8_t>(error); }\n        return n;")]),
    ('q-scope', 'S04', 'quiet', [(P, "        if(prefix & (1 << 6)) {\n            type = prefix & 2 ? Type::Object : Type::Array;", "        if(prefix >= 0xDC) {\n            type = prefix >= 0xDE ? Type::Object : Type::Array;")]),
    ('q-write', 'S04', 'quiet', [(P, "    if(this->scope) {\n        if(this->scope->type == Type::Object) {\n            write_str(name, out);\n        }\n        this->scope_stack.top().elements++;\n    }\n", "    if(!this->scope_stack.empty()) {\n        auto& top = this->scope_stack.top();\n        top.elements += 1;\n        if(top.type == Type::Object) { write_str(name, out); }\n    }\n")]),
]
