J = 'src/lib/PJson.cpp'
O = 'include/Srl/Out.hpp'
IH = 'include/Srl/In.hpp'
B = 'src/lib/ToolsBtsConv.cpp'
S = 'S03'
M = [
    ('no-esc-bs', S, 'caught', [(J, "            '\\\"', ar('\\\"'), '\\\\', ar('\\\\'), '/', ar('/'), '\\n', ar('n'),\n            '\\t', ar('t'), '\\r',  ar('r'), '\\b',  ar('b'), '\\f', ar('f')\n        );\n    }\n\n    /* control", "            '\\\"', ar('\\\"'), '/', ar('/'), '\\n', ar('n'),\n            '\\t', ar('t'), '\\r',  ar('r'), '\\b',  ar('b'), '\\f', ar('f')\n        );\n    }\n\n    /* control")]),
    ('esc-swap', S, 'caught', [(J, "'\\b',  ar('b'), '\\f', ar('f')\n        );\n    }\n\n    /* control", "'\\b',  ar('f'), '\\f', ar('b')\n        );\n    }\n\n    /* control")]),
    ('ctl-1f', S, 'caught', [(J, "return c < 0x20 && c != '\\n'", "return c < 0x1f && c != '\\n'")]),
    ('ctl-sign', S, 'quiet', [(J, "bool needs_uc_literal(uint8_t c)", "bool needs_uc_literal(int c)")]),
    ('ctl-del', S, 'quiet', [(J, "return c < 0x20 && c != '\\n'", "return c == 0x7f || c < 0x20 && c != '\\n'")]),
    ('done', S, 'caught', [(J, "                done = i + 1;", "                done = i + 1 + (i > 0 && str.ptr[i - 1] == str.ptr[i]);")]),
    ('done0', S, 'caught', [(J, "                write_escape({ str.ptr + done, i - done }, out);", "                if(i - done > 1) write_escape({ str.ptr + done, i - done }, out);")]),
    ('tail', S, 'caught', [(J, "        write_escape({ str.ptr + done, str.size - done }, out);", "        out.write({ str.ptr + done, str.size - done });")]),
    ('name-raw', S, 'caught', [(J, "        insert_in_quotes(out, name, true);", "        insert_in_quotes(out, name, false);")]),
    ('hex-u00', S, 'caught', [(J, "out.write((const uint8_t*)\"\\\\u00\", 4);", "out.write((const uint8_t*)(str.ptr[i] ? \"\\\\u00\" : \"\\\\u0\"), str.ptr[i] ? 4 : 3);")]),
    ('r-tab', S, 'caught', [(J, "'\\t', ar('t'), '\\r',  ar('r'), '\\b',  ar('b'), '\\f', ar('f'), uc_literal", "'\\t', ar('t'), '\\r',  ar('r'), '\\b',  ar('b'), uc_literal")]),
    ('r-swap', S, 'caught', [(J, "            swap(hex_buffer[len], hex_buffer[len + 1]);\n            len += 2;", "            if(len == 0) swap(hex_buffer[len], hex_buffer[len + 1]);\n            len += 2;")]),
    ('r-sur', S, 'caught', [(J, "(hex_buffer[1] & 0xFC) == 0xD8", "(hex_buffer[1] & 0xFE) == 0xD8")]),
    ('r-idx', S, 'caught', [(J, "buf, true, idx);", "buf, true, idx > 1 ? idx - 1 : idx);")]),
    ('r-hexcase', S, 'caught', [(B, "} else if(c >= 'a' && c <= 'f') {", "} else if(c >= 'a' && c < 'f') {")]),
    ('r-hexval', S, 'caught', [(B, "            c = (c - 'a') + 10;", "            c = (c - 'a') + 11 - (c < 'f');")]),
    ('r-len', S, 'caught', [(IH, "        return left >= N && Aux::comp<N>(this->pos, token.data())", "        return left > N && Aux::comp<N>(this->pos, token.data())")]),
    ('r-grow', S, 'caught', [(IH, "            if(steps + 1 > bufsz) {", "            if(steps > bufsz) {")]),
    ('q-solidus', S, 'quiet', [(J, "            '\\\"', ar('\\\"'), '\\\\', ar('\\\\'), '/', ar('/'), '\\n', ar('n'),\n            '\\t', ar('t'), '\\r',  ar('r'), '\\b',  ar('b'), '\\f', ar('f')\n        );\n    }\n\n    /* control", "            '\\\"', ar('\\\"'), '\\\\', ar('\\\\'), '\\n', ar('n'),\n            '\\t', ar('t'), '\\r',  ar('r'), '\\b',  ar('b'), '\\f', ar('f')\n        );\n    }\n\n    /* control")]),
    ('q-write', S, 'quiet', [(J, "        size_t done = 0;\n\n        for(size_t i = 0; i < str.size; i++) {\n\n            if(needs_uc_literal(str.ptr[i])) {\n                write_escape({ str.ptr + done, i - done }, out);\n", "        for(size_t i = 0; i < str.size; i++) {\n\n            if(!needs_uc_literal(str.ptr[i])) {\n                write_escape({ str.ptr + i, 1 }, out);\n            } else {\n"), (J, "                out.write(hex.data(), hex.size());\n\n                done = i + 1;\n            }\n        }\n\n        write_escape({ str.ptr + done, str.size - done }, out);", "                out.write(hex.data(), hex.size());\n            }\n        }")]),
    ('q-hex', S, 'quiet', [(J, "                auto hex = Tools::bytes_to_hex(str.ptr + i, 1);\n                out.write((const uint8_t*)\"\\\\u00\", 4);\n                out.write(hex.data(), hex.size());", "                const char* digits = \"0123456789abcdef\";\n                out.write((const uint8_t*)\"\\\\u00\", 4);\n                out.write((uint8_t)digits[str.ptr[i] >> 4]); out.write((uint8_t)digits[str.ptr[i] & 15]);")]),
    ('q-switch', S, 'quiet', [(J, "        return c < 0x20 && c != '\\n' && c != '\\t' && c != '\\r' && c != '\\b' && c != '\\f';", "        switch(c) { case '\\n': case '\\t': case '\\r': case '\\b': case '\\f': return false; default: return c < ' '; }")]),
    ('q-swap', S, 'quiet', [(J, "            swap(hex_buffer[len], hex_buffer[len + 1]);", "            auto b = hex_buffer[len]; hex_buffer[len] = hex_buffer[len + 1]; hex_buffer[len + 1] = b;")]),
    ('q-conv', S, 'quiet', [(B, "        if(c >= '0' && c <= '9') {\n            c -= '0';\n\n        } else if(c >= 'A' && c <= 'F') {\n            c = (c - 'A') + 10;\n\n        } else if(c >= 'a' && c <= 'f') {\n            c = (c - 'a') + 10;\n\n        } else {", "        if(c >= '0' && c <= '9') {\n            c = c & 15;\n\n        } else if((c >= 'A' && c <= 'F') || (c >= 'a' && c <= 'f')) {\n            c = (c & 7) + 9;\n\n        } else {")]),
]
