J = 'src/lib/PJson.cpp'
F = 'src/lib/fpconv/fpconv.c'
S, T = 'S24', 'S25'
M = [
    ('comma-close', S, 'caught', [(J, "if(!this->scope_closed && type != Type::Scope_End) {", "if(!this->scope_closed) {")]),
    ('comma-nested', S, 'caught', [(J, "        this->scope_stack.push(type);\n        this->scope_closed = true;\n        this->scope_type = type;\n\n        return;", "        this->scope_stack.push(type);\n        this->scope_closed = this->scope_type != type;\n        this->scope_type = type;\n\n        return;")]),
    ('comma-after-end', S, 'caught', [(J, "    this->scope_closed = false;\n\n    if(this->scope_type != Type::Null", "    this->scope_closed = type == Type::Scope_End && this->scope_stack.size() > 3;\n\n    if(this->scope_type != Type::Null")]),
    ('bracket', S, 'caught', [(J, "        auto c = this->scope_type == Type::Array ? ']' : '}';", "        auto c = this->scope_type == Type::Array && this->scope_stack.size() < 3 ? ']' : '}';")]),
    ('scope-pop', S, 'caught', [(J, "            ? this->scope_stack.top()\n            : Type::Null;\n\n        return;", "            ? type == Type::Scope_End ? this->scope_type : this->scope_stack.top()\n            : Type::Null;\n\n        return;")]),
    ('name-empty', S, 'caught', [(J, "        insert_in_quotes(out, name, true);\n", "        if(name.size > 0) insert_in_quotes(out, name, true);\n")]),
    ('name-scope', S, 'caught', [(J, "       type != Type::Scope_End) {\n\n        insert", "       type != Type::Scope_End && type != Type::Array) {\n\n        insert")]),
    ('spaced-colon', S, 'caught', [(J, "        if(!this->compact) {\n            out.write(' ');", "        if(!this->compact) {\n            out.write(name.size > 1 ? ' ' : ':');")]),
    ('tabs', S, 'caught', [(J, "    out.write_times(depth, '\\t');", "    out.write_times(depth, depth > 20 ? '\\v' : '\\t');")]),
    ('no-quotes', S, 'caught', [(J, "    if(TpTools::is_scalar(type)) {", "    if(TpTools::is_scalar(type) || value.size() > 2) {")]),
    ('q-write', S, 'quiet', [(J, "    if(type == Type::Scope_End) {\n\n        assert(!this->scope_stack.empty());\n\n        auto c = this->scope_type == Type::Array ? ']' : '}';\n\n        out.write(c);\n        this->scope_stack.pop();", "    if(type == Type::Scope_End) {\n\n        auto top = this->scope_stack.top();\n        this->scope_stack.pop();\n        out.write_byte(top == Type::Array ? 0x5D : 0x7D);")]),
    ('q-spaces', S, 'quiet', [(J, "            out.write(' ');\n", "            out.write(' ');\n            out.write(' ');\n")]),
    ('q-newline', S, 'quiet', [(J, "    out.write_times(depth, '\\t');", "    for(size_t i = 0; i < depth; i++) { out.write(' '); out.write(' '); }")]),
    ('q-named', S, 'quiet', [(J, "    if(this->scope_type != Type::Null &&\n       this->scope_type != Type::Array &&\n       type != Type::Scope_End) {\n", "    if(!this->scope_stack.empty() && this->scope_stack.top() == Type::Object && type != Type::Scope_End) {\n")]),
    # floating point text
    ('fp-zeros', T, 'caught', [(F, "memset(dest + ndigits, '0', K);", "memset(dest + ndigits, '0', K > 5 ? 5 : K);")]),
    ('fp-dot', T, 'caught', [(F, "            dest[offset] = '.';", "            dest[offset] = ',';")]),
    ('fp-lead', T, 'caught', [(F, "        if(offset <= 0) {", "        if(offset < 0) {")]),
    ('fp-exp', T, 'caught', [(F, "    if(exp > 99) {", "    if(exp > 100) {")]),
    ('fp-exp0', T, 'caught', [(F, "    } else if(cent) {\n        dest[idx++] = '0';", "    } else if(cent > 1) {\n        dest[idx++] = '0';")]),
    ('fp-sign', T, 'caught', [(F, "    char sign = K + ndigits - 1 < 0 ? '-' : '+';", "    char sign = K < 0 ? '-' : '+';")]),
    ('fp-trunc', T, 'caught', [(F, "    ndigits = minv(ndigits, 18 - neg);", "    ndigits = minv(ndigits, 17 - neg);")]),
    ('fp-room', T, 'caught', [(F, "    if(K < 0 && (K > -7 || exp < 4)) {", "    if(K < 0 && (K > -30 || exp < 4)) {")]),
    ('fp-one', T, 'caught', [(F, "        dest[idx++] = '.';\n", "        if(ndigits > 2) dest[idx++] = '.';\n")]),
    ('fp-neg', T, 'caught', [(F, "    if(get_dbits(d) & signmask) {", "    if(d < -1e-300) {")]),
    ('fp-nan', T, 'caught', [(F, "    bool nan = (bits & expmask) == expmask;", "    bool nan = (bits & expmask) >= (expmask & (expmask - fracmask));")]),
    ('q-fp-form', T, 'quiet', [(F, "    if(K < 0 && (K > -7 || exp < 4)) {", "    if(K < 0 && (K > -5 || exp < 3)) {")]),
    ('q-fp-exp', T, 'quiet', [(F, "    int cent = 0;\n\n    if(exp > 99) {\n        cent = exp / 100;\n        dest[idx++] = cent + '0';\n        exp -= cent * 100;\n    }\n    if(exp > 9) {\n        int dec = exp / 10;\n        dest[idx++] = dec + '0';\n        exp -= dec * 10;\n\n    } else if(cent) {\n        dest[idx++] = '0';\n    }\n\n    dest[idx++] = exp % 10 + '0';", "    if(exp >= 100) { dest[idx++] = exp / 100 + '0'; }\n    if(exp >= 10) { dest[idx++] = exp / 10 % 10 + '0'; }\n    dest[idx++] = exp % 10 + '0';")]),
    ('q-fp-loop', T, 'quiet', [(F, "        memcpy(dest, digits, ndigits);\n        memset(dest + ndigits, '0', K);\n\n        return ndigits + K;", "        int i;\n        for(i = 0; i < ndigits; i++) { dest[i] = digits[i]; }\n        for(; i < ndigits + K; i++) { dest[i] = '0'; }\n\n        return i;")]),
]
