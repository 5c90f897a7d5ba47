C = 'src/lib/In.cpp'
H = 'include/Srl/In.hpp'
P = 'src/lib/PSrl.cpp'
G = 'src/lib/PMsgPack.cpp'
J = 'src/lib/PJson.cpp'
T = 'src/lib/Tools.cpp'
S = 'S01'
M = [
    ('name-not-copied', S, 'caught', [(P, "        if(source.is_streaming()) {\n            block = Aux::copy(this->string_buffer, block);\n        }\n", "")]),
    ('index-off', S, 'caught', [(P, "if(index >= this->indexed_strings.size()) {", "if(index > this->indexed_strings.size()) {")]),
    ('index-int', S, 'caught', [(P, "        auto index = decode_integer(source);\n", "        int index = decode_integer(source);\n"), (P, "if(index >= this->indexed_strings.size()) {", "if(index >= (int)this->indexed_strings.size()) {")]),
    ('index-u32', S, 'quiet', [(P, "        auto index = decode_integer(source);\n", "        uint32_t index = decode_integer(source);\n")]),
    ('scope-empty', S, 'caught', [(P, "        if(this->scope_stack.size() < 1) {\n            error();\n        }\n", "")]),
    ('mp-name', S, 'caught', [(G, "        if(in.is_streaming()) {\n            if(buffer.size() < block.size) { buffer.resize(block.size); }\n\n            memcpy(buffer.data(), block.ptr, block.size);\n            block = { buffer.data(), block.size };\n        }\n", "")]),
    ('mp-name-buf', S, 'caught', [(G, "if(buffer.size() < block.size) { buffer.resize(block.size); }", "if(buffer.size() + 1 < block.size) { buffer.resize(block.size); }")]),
    ('mp-name-early', S, 'caught', [(G, "        if(in.is_streaming()) {\n            if(buffer", "        if(in.is_streaming() && block.size < 64) {\n            if(buffer")]),
    ('block-wrap', S, 'caught', [(H, "        if(steps > (size_t)(this->end - this->pos)) {\n            this->fetch", "        if(this->pos + steps > this->end) {\n            this->fetch")]),
    ('peek-int', S, 'caught', [(H, "if(steps > (size_t)(this->end - this->pos)) {\n            this->fetch", "if((int)steps > this->end - this->pos) {\n            this->fetch")]),
    ('scalar-nocheck', S, 'caught', [(G, "        auto num = in.read_move<NumTP>(error);", "        auto num = *(const NumTP*)in.pointer();\n        in.move(sizeof(NumTP), error);")]),
    ('peek-before', S, 'quiet', [(G, "        auto num = in.read_move<NumTP>(error);", "        auto blk = in.read_block(sizeof(NumTP), error);\n        auto num = Aux::read<NumTP>(blk.ptr);")]),
    ('json-end', S, 'caught', [(J, "    /* skip opening quotation-mark */\n    source.move(1, error);", "    /* skip opening quotation-mark */\n    source.move(2, error);")]),
    ('alloc-len', S, 'caught', [(P, "            block = Aux::copy(this->string_buffer, block);", "            this->string_buffer.alloc(size * 4);\n            block = Aux::copy(this->string_buffer, block);")]),
    ('json-redundant', S, 'caught', [(J, "        if(this->scope_stack.empty()) {\n            this->throw_exception(state, \"Redundant scope delimiter.\");\n        }\n\n        this->scope_stack.pop();", "        this->scope_stack.pop();")]),
    ('other-exc', S, 'caught', [(P, "        if(index >= this->indexed_strings.size()) {\n            error();\n        }\n\n        return { flag, this->indexed_strings[index] };", "        return { flag, this->indexed_strings.at(index) };")]),
]
