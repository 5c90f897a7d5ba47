P = 'src/lib/PSrl.cpp'
H = 'include/Srl/Hash.hpp'
S = 'S05'
M = [
    ('flag-dup', S, 'caught', [(P, "const Flag FString = 1 << 5;", "const Flag FString = 1 << 4;")]),
    ('signed', S, 'caught', [(P, "if(TpTools::is_num(tp) && TpTools::is_integral(tp)) {\n            return FNum | (TpTools::is_signed(tp) && val.pblock().i64 < 0 ? FSigned : 0);", "if(TpTools::is_num(tp) && TpTools::is_integral(tp)) {\n            return FNum | (TpTools::is_signed(tp) && val.pblock().i64 < -1 ? FSigned : 0);")]),
    ('signed-u', S, 'caught', [(P, "(TpTools::is_signed(tp) && val.pblock().i64 < 0 ? FSigned : 0)", "(val.pblock().i64 < 0 ? FSigned : 0)")]),
    ('fp', S, 'caught', [(P, "tp == Type::FP32 ? FFP32 : FFP64", "tp == Type::FP64 ? FFP32 : FFP64")]),
    ('bool', S, 'caught', [(P, "(val.pblock().i64 ? FTrue : FFalse)", "(val.pblock().i64 ? FFalse : FTrue)")]),
    ('msb', S, 'caught', [(P, "while(integer >= mask_msb) {", "while(integer > mask_msb) {")]),
    ('msb-shift', S, 'caught', [(P, "integer >>= 7;", "integer >>= sz < 8 ? 7 : 8;")]),
    ('buf', S, 'caught', [(P, "uint8_t buffer[10];", "uint8_t buffer[9];")]),
    ('dec-limit', S, 'caught', [(P, "if(shift >= 10 * 7) {", "if(shift >= 9 * 7) {")]),
    ('dec-limit2', S, 'caught', [(P, "if(shift >= 10 * 7) {", "if(shift > 10 * 7) {")]),
    ('dec-shift32', S, 'caught', [(P, "out_integer |= (mask_reset_msb & block) << shift;", "out_integer |= (uint64_t)((uint32_t)(mask_reset_msb & block) << (shift & 31)) << (shift & 32);")]),
    ('dec-mask', S, 'caught', [(P, "uint64_t out_integer = mask_reset_msb & block;", "uint64_t out_integer = block & 0x7E;")]),
    ('scope-array', S, 'caught', [(P, "if(str.size < 1 || scope == Type::Null || scope == Type::Array) {", "if(str.size < 1 || scope == Type::Null) {")]),
    ('scope-array-r', S, 'caught', [(P, "if(!(flag & FNamed) || scope == Type::Null || scope == Type::Array) {\n        return", "if(!(flag & FNamed) || scope == Type::Null) {\n        return")]),
    ('index-off', S, 'caught', [(P, "encode_integer(*index, out);", "encode_integer(*index & 0x7F, out);")]),
    ('index-num', S, 'caught', [(P, "auto nstrings = this->hashed_strings.num_entries();", "auto nstrings = this->scope_stack.size() > 3 ? 0 : this->hashed_strings.num_entries();")]),
    ('key-borrowed', S, 'caught', [(P, "this->hashed_strings.insert(Aux::copy(this->string_buffer, str), nstrings);", "this->hashed_strings.insert(str, nstrings);")]),
    ('index-gt', S, 'caught', [(P, "if(index >= this->indexed_strings.size()) {", "if(index > this->indexed_strings.size()) {")]),
    ('insert-begin', S, 'caught', [(P, "this->indexed_strings.insert(indexed_strings.end(), block)", "this->indexed_strings.insert(indexed_strings.begin(), block)")]),
    ('end-unchecked', S, 'caught', [(P, "        if(this->scope_stack.size() < 1) {\n            error();\n        }\n", "")]),
    ('pop', S, 'quiet', [(P, "        : Type::Null;\n}", "        : Type::Object;\n}")]),
    ('pop2', S, 'caught', [(P, "    this->scope_stack.pop();\n    this->scope = this->scope_stack.size() > 0\n", "    this->scope_stack.pop();\n    this->scope = this->scope_stack.size() > 4\n")]),
    ('push', S, 'caught', [(P, "    this->scope = scope_type;\n}", "    if(this->scope_stack.size() < 6) this->scope = scope_type;\n}")]),
    ('scope-tp', S, 'caught', [(P, "flag & FObject ? Type::Object : Type::Array;", "flag & FArray ? Type::Array : flag & FNamed ? Type::Array : Type::Object;")]),
    ('size-blob', S, 'caught', [(P, "        encode_integer(value.size(), out);\n", "        encode_integer(value.size() & 0xFFFFFF, out);\n")]),
    ('blob-tp', S, 'caught', [(P, "auto type = flag & FBinary ? Type::Binary : Type::String;", "auto type = flag & FBinary && size ? Type::Binary : Type::String;")]),
    ('neg', S, 'caught', [(P, "Value((int64_t)(0 - integer))", "Value((int32_t)(0 - integer))")]),
    ('neg2', S, 'caught', [(P, "TpTools::is_signed(type) && value.pblock().i64 < 0\n            ? 0 -", "TpTools::is_signed(type) && value.pblock().i64 < 0 && type != Type::I16\n            ? 0 -")]),
    ('hash-only', S, 'caught', [(H, "            if(entry->hash == hash && entry->key == key) {\n                return &entry->val;", "            if(entry->hash == hash) {\n                return &entry->val;")]),
    ('hash-redist', S, 'quiet', [(H, "                auto* tmp = entry;\n                entry = entry->next;\n                tmp->next = nullptr;", "                auto* tmp = entry;\n                entry = nullptr;\n                tmp->next = nullptr;")]),
    ('hash-prev', S, 'quiet', [(H, "        if(prev) {\n            prev->next = new_entry;\n        } else {\n            table[bucket] = new_entry;", "        if(prev && prev->hash != hash) {\n            prev->next = new_entry;\n        } else {\n            table[bucket] = new_entry;")]),
    ('named-flag', S, 'caught', [(P, "        out.write_byte(flag | FIndexed);\n", "        out.write_byte(*index < 100 ? flag | FIndexed : flag);\n")]),
    ('null-type', S, 'caught', [(P, "    if(flag & FNull) {", "    if(flag & (FNull | FIndexed)) {")]),
    # behaviour kept
    ('q-enc', S, 'quiet', [(P, "        while(integer >= mask_msb) {\n            auto block = (integer | mask_msb);\n            integer >>= 7;\n            buffer[sz++] = (uint8_t)block;\n        }\n\n        /* just the lowest 7 bits left */\n        buffer[sz++] = (uint8_t)integer;", "        do {\n            uint8_t block = integer & 0x7F;\n            integer >>= 7;\n            buffer[sz++] = integer ? block | 0x80 : block;\n        } while(integer);")]),
    ('q-dec', S, 'quiet', [(P, "        auto shift = 7U;\n        /* first block w/o msb set is the last 8-bit block of the integer to decode */\n        while(mask_msb & block) {\n            /* no support for integers > 64 bit */\n            if(shift >= 10 * 7) {\n                error();\n            }\n\n            block = source.read_move<uint8_t>(error);\n            out_integer |= (mask_reset_msb & block) << shift;\n            shift += 7;\n        }\n\n        return out_integer;", "        for(int i = 1; block & 0x80; i++) {\n            if(i == 10) { error(); }\n            block = source.read_move<uint8_t>(error);\n            out_integer += (uint64_t)(block & 0x7F) << 7 * i;\n        }\n        return out_integer;")]),
    ('q-scope', S, 'quiet', [(P, "    this->scope = this->scope_stack.size() > 0\n        ? this->scope_stack.top()\n        : Type::Null;", "    if(this->scope_stack.empty()) { this->scope = Type::Null; return; }\n    this->scope = this->scope_stack.top();")]),
    ('q-head', S, 'quiet', [(P, "    if(str.size < 1 || scope == Type::Null || scope == Type::Array) {\n        out.write_byte(flag);\n        return;\n    }\n", "    const bool wanted = str.size > 0 && scope == Type::Object;\n    if(!wanted) {\n        out.write_byte(flag);\n        return;\n    }\n")]),
    ('q-insert', S, 'quiet', [(P, "        auto& str = *this->indexed_strings.insert(indexed_strings.end(), block);\n\n        return { flag, str };", "        this->indexed_strings.push_back(block);\n        return { flag, this->indexed_strings.back() };")]),
    ('q-flag', S, 'quiet', [(P, "            return FNum | (TpTools::is_signed(tp) && val.pblock().i64 < 0 ? FSigned : 0);", "            Flag f = FNum;\n            if(TpTools::is_signed(tp) && val.pblock().i64 < 0) { f |= FSigned; }\n            return f;")]),
    ('q-int', S, 'quiet', [(P, "        uint64_t integer = TpTools::is_signed(type) && value.pblock().i64 < 0\n            ? 0 - value.pblock().ui64\n            : value.pblock().ui64;\n", "        uint64_t integer = value.pblock().ui64;\n        if(TpTools::is_signed(type) && (int64_t)integer < 0) { integer = ~integer + 1; }\n")]),
    ('q-write', S, 'quiet', [(P, "        encode_integer(str.size, out);\n        out.write(str);", "        encode_integer(str.size, out);\n        out.write(str.ptr, str.size);")]),
    ('q-hash', S, 'quiet', [(H, "        while(entry) {\n\n            if(entry->hash == hash && entry->key == key) {\n                return &entry->val;\n            }\n\n            entry = entry->next;\n        }\n\n        return nullptr;", "        for(; entry; entry = entry->next) {\n            if(entry->hash == hash && entry->key == key) { break; }\n        }\n        return entry ? &entry->val : nullptr;")]),
    ('q-index', S, 'quiet', [(P, "    auto nstrings = this->hashed_strings.num_entries();\n", ""), (P, "        this->hashed_strings.insert(Aux::copy(this->string_buffer, str), nstrings);\n", "        auto nstrings = this->hashed_strings.num_entries();\n        this->hashed_strings.insert(Aux::copy(this->string_buffer, str), nstrings);\n")]),
]
