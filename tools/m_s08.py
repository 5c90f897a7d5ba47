C = 'src/lib/ToolsStrConv.cpp'
M = [
    ('buf-short', 'S08', 'caught', [(C, "digits10) + 1 + TpTools::is_signed(TP);", "digits10) + TpTools::is_signed(TP);")]),
    ('buf-nosign', 'S08', 'caught', [(C, "digits10) + 1 + TpTools::is_signed(TP);", "digits10) + 1;")]),
    ('neg-min', 'S08', 'caught', [(C, "uint64_t val = negative ? 0 - value.pblock().ui64 : value.pblock().ui64;", "uint64_t val = negative ? -(int32_t)value.pblock().i64 : value.pblock().ui64;")]),
    ('overflow-10', 'S08', 'caught', [(C, "if(val > (numeric_limits<uint64_t>::max() - digit) / 10) {", "if(val > numeric_limits<uint64_t>::max() / 10) {")]),
    ('overflow-lost', 'S08', 'caught', [(C, "if(val > (numeric_limits<uint64_t>::max() - digit) / 10) {", "if(val * 10 + digit < val) {")]),
    ('signed-lost', 'S08', 'caught', [(C, "&& (!is_signed || val <= numeric_limits<int64_t>::max());", ";")]),
    ('digit-colon', 'S08', 'caught', [(C, "c > '9'", "c > ':'")]),
    ('trail', 'S08', 'caught', [(C, "bool success = idx >= str_len &&", "bool success = idx + 1 >= str_len &&")]),
    ('true-prefix', 'S08', 'caught', [(C, "return str_len == sizeof(TCharAr) - 1 &&", "return str_len >= sizeof(TCharAr) - 1 &&")]),
    ('trim-over', 'S08', 'caught', [(C, "while(str_len > 0 && is_space(*(str + str_len - 1)))", "while(is_space(*(str + str_len - 1)))")]),
    ('fp-i8', 'S08', 'quiet', [(C, "if(str_len + 1 < buffer_size) {", "if(str_len < buffer_size) {")]),
    ('fp-buf', 'S08', 'caught', [(C, "if(str_len + 1 < buffer_size) {", "if(str_len <= buffer_size) {")]),
    ('zero', 'S08', 'caught', [(C, "        if(val == 0) {\n            if(out.size() < 1) out.resize(1);\n", "        if(val == 0) {\n")]),
    ('fp-range', 'S08', 'caught', [(C, "val < (double)numeric_limits<int64_t>::max()", "val <= (double)numeric_limits<int64_t>::max()")]),
    # behaviour kept
    ('r-while', 'S08', 'quiet', [(C, """        for(; val > 0U;
            val /= 10U, ptr--, str_len++) {

            *ptr = '0' + val % 10;
        }
""", """        while(val != 0) {
            const uint64_t rest = val / 10;
            *ptr-- = (uint8_t)('0' + (val - rest * 10));
            val = rest;
            ++str_len;
        }
""")]),
    ('r-do', 'S08', 'quiet', [(C, """        if(val == 0) {
            if(out.size() < 1) out.resize(1);
            out[0] = '0';
            return 1;
        }

""", ""), (C, """        for(; val > 0U;
            val /= 10U, ptr--, str_len++) {

            *ptr = '0' + val % 10;
        }
""", """        do {
            *ptr-- = "0123456789"[val % 10];
            str_len++;
        } while((val /= 10) > 0);
""")]),
    ('r-big', 'S08', 'quiet', [(C, "uint8_t buffer[buffer_size];\n\n        bool neg", "uint8_t buffer[24];\n\n        bool neg"), (C, "auto* ptr = buffer + buffer_size - 1;", "auto* ptr = buffer + sizeof(buffer) - 1;")]),
    ('r-parse', 'S08', 'quiet', [(C, """            uint64_t digit = c - '0';
            if(val > (numeric_limits<uint64_t>::max() - digit) / 10) {
                /* overflow */
                break;
            }
            val = val * 10 + digit;
""", """            const uint64_t digit = c - '0';
            const uint64_t limit = numeric_limits<uint64_t>::max();
            if(val > limit / 10 || (val == limit / 10 && digit > limit % 10)) {
                break;
            }
            val = val * 10 + digit;
""")]),
    ('r-parse2', 'S08', 'quiet', [(C, """            uint64_t digit = c - '0';
            if(val > (numeric_limits<uint64_t>::max() - digit) / 10) {
                /* overflow */
                break;
            }
            val = val * 10 + digit;
""", """            uint64_t tens, sum;
            if(__builtin_mul_overflow(val, (uint64_t)10, &tens) || __builtin_add_overflow(tens, (uint64_t)(c - '0'), &sum)) {
                break;
            }
            val = sum;
""")]),
    ('r-ptr', 'S08', 'quiet', [(C, """        for(char c = '\\0'; idx < str_len; idx++) {
            c = str[idx];

            if(c < '0' || c > '9') {
                break;
            }
""", """        const uint8_t* const end = str + str_len;
        for(const uint8_t* p = str + idx; p != end; p++, idx++) {
            const unsigned c = *p;
            if(c - '0' > 9u) {
                break;
            }
""")]),
    ('r-trim', 'S08', 'quiet', [(C, """    while(str_len > 0 && is_space(*(str + str_len - 1))) {
        str_len--;
    }
""", """    size_t n = str_len;
    for(; n != 0; --n) {
        if(!is_space(str[n - 1])) {
            break;
        }
    }
    str_len = n;
""")]),
]
