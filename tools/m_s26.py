C = 'src/lib/ToolsStrConv.cpp'
A, B = 'S26', 'S19'
RA = "    const Converter converter(desc);\n"
E1 = """        if(errno == EINVAL) {
            if(throw_error) {
                throw Exception("Unable to convert charset. Incomplete byte sequence.");
            }
            return 0;
        }

        if(errno == EILSEQ) {
            if(throw_error) {
                throw Exception("Unable to convert charset. Invalid byte sequence.");
            }
            return 0;
        }
"""
CLS = """    struct Converter {
        explicit Converter(iconv_t desc_) : desc(desc_) { }
        ~Converter() { iconv_close(this->desc); }

        Converter(const Converter&) = delete;
        Converter& operator= (const Converter&) = delete;

        iconv_t desc;
    };
"""
M = [
    ('grow-small', A, 'quiet', [(C, "buffer.size() + left_in * 4;", "buffer.size() + left_in * 4 + 16;")]),
    ('grow-none', A, 'caught', [(C, "buffer.size() + left_in * 4;", "buffer.size() + left_in / 4;")]),
    ('dst-idx', A, 'caught', [(C, "&buffer[buffer_index + converted]", "&buffer[converted ? converted : buffer_index]")]),
    ('dst-again', A, 'caught', [(C, "converted = current - buffer_index - left_out;", "converted = current - left_out;")]),
    ('left-again', A, 'caught', [(C, "left_out = new_size - buffer_index - converted;", "left_out = new_size - converted;")]),
    ('left-none', A, 'caught', [(C, "            left_out = new_size - buffer_index - converted;\n", "            left_out += new_size - converted;\n")]),
    ('left-in', A, 'caught', [(C, "size_t left_in = str_wrap.size();", "size_t left_in = str_wrap.size() & ~size_t(1);")]),
    ('ret', A, 'caught', [(C, "return buffer.size() - buffer_index - left_out;", "return buffer.size() - left_out;")]),
    ('ret2', A, 'caught', [(C, "return buffer.size() - buffer_index - left_out;", "return reserve - left_out;")]),
    ('reserve', A, 'caught', [(C, "buffer.resize(buffer_index + reserve);", "buffer.resize(reserve);")]),
    ('cond', A, 'quiet', [(C, "if(buffer_index + reserve > buffer.size()) {", "if(buffer_index + reserve >= buffer.size()) {")]),
    ('cond2', A, 'caught', [(C, "if(buffer_index + reserve > buffer.size()) {", "if(reserve > buffer.size()) {")]),
    ('order', A, 'caught', [(C, "iconv_open(cs_to, cs_from)", "iconv_open(cs_from, cs_to)")]),
    ('einval', A, 'caught', [(C, "if(errno == EINVAL) {\n            if(throw_error) {", "if(errno == EINVAL) {\n            if(throw_error && left_in > 3) {")]),
    ('eilseq', A, 'caught', [(C, "Invalid byte sequence.\");\n            }\n            return 0;", "Invalid byte sequence.\");\n            }\n            return buffer.size() - buffer_index - left_out;")]),
    ('same-seg', A, 'caught', [(C, "auto seg = str_wrap.size() + buffer_index;", "auto seg = str_wrap.size();")]),
    ('same-idx', A, 'caught', [(C, "memcpy(&buffer[buffer_index], str_wrap.data(), str_wrap.size());", "memcpy(&buffer[0], str_wrap.data(), str_wrap.size());")]),
    ('same-ret', A, 'caught', [(C, "        return str_wrap.size();\n    }\n\n    if(cs_from == nullptr", "        return seg;\n    }\n\n    if(cs_from == nullptr")]),
    ('open-fail', A, 'caught', [(C, "if(desc == (iconv_t)(-1)) {", "if(desc == nullptr) {")]),
    ('unknown', A, 'caught', [(C, "if(cs_from == nullptr || cs_to == nullptr) {", "if(cs_from == nullptr && cs_to == nullptr) {")]),
    ('q-errno', A, 'quiet', [(C, "        if (errno == E2BIG) {", "        if(left_in) {")]),
    ('q-switch', A, 'quiet', [(C, E1, """        const int why = errno;

        if(why == EINVAL || why == EILSEQ) {
            if(!throw_error) return 0;
            throw Exception(why == EINVAL ? "Unable to convert charset. Incomplete byte sequence."
                                          : "Unable to convert charset. Invalid byte sequence.");
        }
""")]),
    ('q-dowhile', A, 'quiet', [(C, "    while(true) {\n        auto* dst = (char*)&buffer[buffer_index + converted];\n        converted = iconv(desc, &src, &left_in, &dst, &left_out);\n\n        if(converted == 0) {\n            /* all characters converted */\n            break;\n        }\n",
                                   "    for(auto* dst = (char*)buffer.data() + buffer_index; iconv(desc, &src, &left_in, &dst, &left_out) != 0; dst = (char*)buffer.data() + buffer_index + converted) {\n")]),
    ('q-big', A, 'quiet', [(C, "        target_encoding < src_encoding ? 1 : src_encoding == Encoding::UTF16 ? 2 : 4", "        4")]),
    ('c-none', B, 'caught', [(C, "~Converter() { iconv_close(this->desc); }", "~Converter() { }")]),
    ('c-cond', B, 'caught', [(C, "~Converter() { iconv_close(this->desc); }", "~Converter() { if(errno != EILSEQ) iconv_close(this->desc); }")]),
    ('c-twice', B, 'caught', [(C, E1, E1.replace("            return 0;\n        }\n\n        if(errno == EILSEQ", "            iconv_close(desc);\n            return 0;\n        }\n\n        if(errno == EILSEQ"))]),
    ('c-late', B, 'caught', [(C, RA, ""), (C, "    size_t converted = 0;\n\n    while", "    size_t converted = 0;\n" + RA + "\n    while")]),
    ('c-old', B, 'caught', [(C, RA, ""), (C, E1, E1.replace("            if(throw_error", "            iconv_close(desc);\n            if(throw_error")), (C, "    return buffer.size() - buffer_index - left_out;", "    iconv_close(desc);\n    return buffer.size() - buffer_index - left_out;"), (C, CLS, "")]),
    ('c-use', B, 'caught', [(C, RA, ""), (C, "            auto current = buffer.size();", "            iconv_close(desc);\n            auto current = buffer.size();"), (C, "    return buffer.size() - buffer_index - left_out;", "    iconv_close(desc);\n    return buffer.size() - buffer_index - left_out;"), (C, CLS, "")]),
    ('c-early', B, 'caught', [(C, RA, "    if(str_wrap.size() == 1 && src_encoding == Encoding::UTF16) return 0;\n" + RA)]),
    ('q-move', B, 'quiet', [(C, "    iconv_t desc = iconv_open(cs_to, cs_from);\n", "    Converter guard(iconv_open(cs_to, cs_from));\n    iconv_t desc = guard.desc;\n"), (C, RA, ""), (C, "~Converter() { iconv_close(this->desc); }", "~Converter() { if(this->desc != (iconv_t)-1) iconv_close(this->desc); }")]),
    ('q-unique', B, 'quiet', [(C, CLS, "    struct Close { void operator()(void* d) const { iconv_close((iconv_t)d); } };\n"), (C, RA, "    const std::unique_ptr<void, Close> converter((void*)desc);\n"), (C, "#include <iconv.h>", "#include <iconv.h>\n#include <memory>")]),
    ('q-try', B, 'quiet', [(C, CLS, ""), (C, RA, "    try {\n"), (C, "    return buffer.size() - buffer_index - left_out;", "    iconv_close(desc);\n    return buffer.size() - buffer_index - left_out;\n    } catch(...) { iconv_close(desc); throw; }"),
                            (C, E1, E1.replace("            return 0;", "            iconv_close(desc);\n            return 0;"))]),
]
