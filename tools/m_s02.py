C = 'src/lib/In.cpp'
H = 'include/Srl/In.hpp'
S = 'S02'
PRES = "    auto preserve_pos = this->anchor != nullptr\n        ? this->anchor - start\n        : (this->end - start) - left;\n"
M = [
    ('anchor-drop', S, 'caught', [(C, "    anchor = anchor ? &this->buffer[margin] : nullptr;\n", "    anchor = nullptr;\n")]),
    ('anchor-pos', S, 'caught', [(H, "        this->anchor = this->pos;\n        this->move(steps, error);", "        this->move(steps, error);")]),
    ('until-anchor', S, 'caught', [(H, "        this->anchor = this->pos;\n        auto steps", "        auto steps")]),
    ('margin-off', S, 'caught', [(C, "&this->buffer[preserve_pos - margin], preserve_sz", "&this->buffer[preserve_pos], preserve_sz - margin")]),
    ('margin-neg', S, 'caught', [(C, "auto margin = preserve_pos < margin_sz ? margin_sz - (margin_sz - preserve_pos) : margin_sz;", "auto margin = margin_sz;")]),
    ('left-0', S, 'caught', [(C, "    read_len = (nbytes < read_len ? read_len : nbytes) - left;", "    read_len = nbytes < read_len ? read_len - left : nbytes;")]),
    ('read-len', S, 'caught', [(C, "(nbytes < read_len ? read_len : nbytes) - left", "read_len - left")]),
    ('eof-le', S, 'caught', [(C, "    if(bytes_read + left < nbytes) {", "    if(bytes_read + left <= nbytes) {")]),
    ('eof-left', S, 'caught', [(C, "    if(bytes_read + left < nbytes) {", "    if(bytes_read < nbytes) {")]),
    ('eof-short', S, 'caught', [(C, "    if(bytes_read + left < nbytes) {", "    if(bytes_read < read_len) {")]),
    ('end-wrong', S, 'caught', [(C, "this->buffer.data() + bytes_read + preserve_sz;", "this->buffer.data() + read_len + preserve_sz;")]),
    ('pos-wrong', S, 'caught', [(C, "&this->buffer[preserve_sz - left]", "&this->buffer[margin]")]),
    ('eof-sticky', S, 'caught', [(C, "    this->anchor = nullptr;\n    this->eof_reached = false;", "    this->anchor = nullptr;")]),
    ('anchor-sticky', S, 'caught', [(C, "    this->anchor = nullptr;\n    this->eof_reached = false;", "    this->eof_reached = false;")]),
    ('start-old', S, 'caught', [(C, "        this->start = this->end = this->pos = nullptr;\n", "")]),
    ('peek-wrap', S, 'caught', [(H, "        if(steps > (size_t)(this->end - this->pos)) {\n            this->fetch", "        if(this->pos + steps > this->end) {\n            this->fetch")]),
    ('peek-int', S, 'caught', [(H, "if(steps > (size_t)(this->end - this->pos)) {\n            this->fetch", "if((int)steps > this->end - this->pos) {\n            this->fetch")]),
    ('try-lt', S, 'caught', [(H, "return steps <= (size_t)(this->end - this->pos) ||", "return steps < (size_t)(this->end - this->pos) ||")]),
    ('memcpy', S, 'quiet', [(C, "memmove(this->buffer.data(), &this->buffer[preserve_pos - margin], preserve_sz);", "copy(this->buffer.begin() + (preserve_pos - margin), this->buffer.begin() + (preserve_pos - margin) + preserve_sz, this->buffer.begin());")]),
    ('grow-late', S, 'caught', [(C, "    if(this->buffer.size() < bufsz) {", "    if(this->buffer.size() < bufsz - 8) {")]),
    ('move-first', S, 'caught', [(C, "    if(this->buffer.size() < bufsz) {\n        this->buffer.resize(bufsz);\n    }\n", "    if(this->buffer.size() < bufsz) {\n        this->buffer.clear();\n        this->buffer.resize(bufsz);\n    }\n")]),
    ('sub-left', S, 'caught', [(H, "auto left = this->try_peek(max) ? max : this->end - this->pos;", "auto left = this->try_peek(2) ? max : this->end - this->pos;")]),
    ('sub-less', S, 'caught', [(H, "auto left = this->try_peek(max) ? max : this->end - this->pos;", "auto left = this->try_peek(max) ? max : 0;")]),
    ('sub-grow', S, 'caught', [(H, "            if(steps + 1 > bufsz) {", "            if(steps > bufsz) {")]),
    ('until-steps', S, 'caught', [(H, "        return { this->pos - steps, steps };\n    }\n\n    template<class... Tokens>\n    size_t In::move_while", "        return { this->pos - steps, steps + 1 };\n    }\n\n    template<class... Tokens>\n    size_t In::move_while")]),
    ('pair-peek', S, 'caught', [(H, "(try_peek(N) && Aux::comp<N>", "(try_peek(1) && Aux::comp<N>")]),
    ('clear-fail', S, 'caught', [(C, "        this->eof_reached = true;\n\n        return false;", "        this->eof_reached = true;\n        this->end = this->pos;\n\n        return false;")]),
    ('q-margin', S, 'quiet', [(C, "const auto margin_sz = 32;", "const auto margin_sz = 64;")]),
    ('q-nomargin', S, 'quiet', [(C, "const auto margin_sz = 32;", "const auto margin_sz = 0;")]),
    ('q-chunk', S, 'quiet', [('include/Srl/In.h', "size_t read_len = 1024", "size_t read_len = 4096")]),
    ('q-helper', S, 'quiet', [(C, "    auto margin = preserve_pos < margin_sz ? margin_sz - (margin_sz - preserve_pos) : margin_sz;", "    auto margin = min<ptrdiff_t>(preserve_pos, margin_sz);")]),
    ('q-eof', S, 'quiet', [(C, "    if(bytes_read + left < nbytes) {\n        this->eof_reached = true;\n\n        return false;\n    }\n\n    return true;", "    this->eof_reached = (size_t)(this->end - this->pos) < nbytes;\n\n    return !this->eof_reached;")]),
    ('q-block', S, 'quiet', [(H, "        this->anchor = this->pos;\n        this->move(steps, error);\n        this->anchor = nullptr;\n\n        return { this->pos - steps, steps };", "        MemBlock block(this->peek(steps, error), steps);\n        this->pos += steps;\n\n        return block;")]),
    ('q-loop', S, 'quiet', [(H, "        this->peek(1, error);\n\n        while(Not == this->is_at_token(tokens...)) {\n            this->move(1, error);\n            this->peek(1, error);\n            steps++;\n        }", "        for(this->peek(1, error); Not == this->is_at_token(tokens...); this->peek(1, error)) {\n            this->pos++;\n            steps++;\n        }")]),
    ('q-swap', S, 'quiet', [(C, "    if(this->buffer.size() < bufsz) {\n        this->buffer.resize(bufsz);\n    }\n\n    if(preserve_sz > 0) {\n        memmove(this->buffer.data(), &this->buffer[preserve_pos - margin], preserve_sz);\n    }\n",
                                "    vector<uint8_t> next(bufsz);\n\n    if(preserve_sz > 0) {\n        memcpy(next.data(), &this->buffer[preserve_pos - margin], preserve_sz);\n    }\n    this->buffer = move(next);\n")]),
    ('q-pos', S, 'quiet', [(C, "&this->buffer[preserve_sz - left]", "this->buffer.data() + (preserve_sz - left)")]),
]
