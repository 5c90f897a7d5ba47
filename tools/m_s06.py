B = 'src/lib/ToolsBtsConv.cpp'
M = [
    ('enc-two-bytes-short', 'S06', 'caught', [(B, "b1 = in_idx + 1 < nbytes ?", "b1 = in_idx + 2 < nbytes ?")]),
    ('enc-u16-index', 'S06', 'caught', [(B, "for(size_t in_idx = 0U, out_idx = 0U; in_idx < nbytes;\n               in_idx += 3, out_idx += 4)", "for(uint16_t in_idx = 0U, out_idx = 0U; in_idx < nbytes;\n               in_idx += 3, out_idx += 4)")]),
    ('enc-shift', 'S06', 'caught', [(B, "((b1 << 2) | (b2 >> 6)) & 0x3F", "((b1 << 2) | (b2 >> 7)) & 0x3F")]),
    ('alphabet-url', 'S06', 'caught', [(B, "'8', '9', '+', '/'", "'8', '9', '+', '_'")]),
    ('dec-nofill', 'S06', 'caught', [(B, "b0 == table.val_fill || b1 == table.val_fill ||", "b0 == table.val_fill ||")]),
    ('dec-late', 'S06', 'caught', [(B, "(b3 == table.val_fill && in_idx + 4 != str_len)) {", "false) {")]),
    ('dec-guard', 'S06', 'caught', [(B, "out_idx + 2 < dest_size", "out_idx + 1 < dest_size")]),
    ('dec-bound', 'S06', 'caught', [(B, "&& in_idx + 4 <= str_len", "")]),
    ('size-signed', 'S06', 'caught', [(B, "rem += str[str_len - 2] == '=' ? 1 : 0;", "rem += str[str_len - 2] == '=' ? 2 : 0;")]),
    ('hex-lower', 'S06', 'caught', [(B, "c = (c - 'a') + 10;", "c = (c - 'a') + 11;")]),
    ('hex-range', 'S06', 'caught', [(B, "c <= 'f'", "c <= 'g'")]),
    ('hex-odd', 'S06', 'caught', [(B, "    if(str_len % 2 != 0) {", "    if(false && str_len % 2 != 0) {")]),
    ('hex-enc', 'S06', 'caught', [(B, "hex_lk[(bytes[in_idx] >> 4) & 0x0F]", "hex_lk[(bytes[in_idx] >> 3) & 0x0F]")]),
    ('hex-dest', 'S06', 'caught', [(B, "if(dest_size < str_len / 2) {", "if(dest_size + 1 < str_len / 2) {")]),
    ('big-only', 'S06', 'caught', [(B, "b2 = in_idx + 2 < nbytes ? bytes[in_idx + 2] : 0;", "b2 = in_idx + 2 < nbytes ? bytes[in_idx + 2 - (in_idx > 4000)] : 0;")]),
    # behaviour kept
    ('r-while', 'S06', 'quiet', [(B, """    for(size_t in_idx = 0, out_idx = 0; in_idx < nbytes;
               in_idx++, out_idx += 2) {

        hexv[out_idx]     = hex_lk[(bytes[in_idx] >> 4) & 0x0F];
        hexv[out_idx + 1] = hex_lk[bytes[in_idx] & 0x0F];
    }""", """    size_t in_idx = 0;
    auto* dst = hexv.data();
    while(in_idx != nbytes) {
        const uint8_t b = bytes[in_idx++];
        *dst++ = hex_lk[b >> 4];
        *dst++ = hex_lk[b % 16];
    }""")]),
    ('r-groups', 'S06', 'quiet', [(B, """    for(size_t in_idx = 0U, out_idx = 0U; in_idx < nbytes;
               in_idx += 3, out_idx += 4) {
""", """    const size_t groups = (nbytes + 2) / 3;
    for(size_t g = 0U; g < groups; g++) {
        const size_t in_idx = g * 3, out_idx = g * 4;
""")]),
    ('r-extract', 'S06', 'quiet', [(B, "vector<uint8_t> Tools::bytes_to_base64(const uint8_t* bytes, size_t nbytes)\n{", """static uint8_t at_or_zero(const uint8_t* b, size_t i, size_t n) { if(i >= n) { return 0; } return b[i]; }

vector<uint8_t> Tools::bytes_to_base64(const uint8_t* bytes, size_t nbytes)\n{"""),
        (B, "b1 = in_idx + 1 < nbytes ? bytes[in_idx + 1] : 0;", "b1 = at_or_zero(bytes, in_idx + 1, nbytes);"),
        (B, "b2 = in_idx + 2 < nbytes ? bytes[in_idx + 2] : 0;", "b2 = at_or_zero(bytes, in_idx + 2, nbytes);")]),
    ('r-dec', 'S06', 'quiet', [(B, """    for(size_t in_idx = 0, out_idx = 0; out_idx < dest_size && in_idx + 4 <= str_len;
               out_idx += 3, in_idx += 4) {
""", """    size_t in_idx = 0;
    for(size_t out_idx = 0; out_idx < dest_size; out_idx += 3) {
        if(str_len - in_idx < 4) {
            break;
        }
"""), (B, """            dest[out_idx + 2] = b2 << 6 | b3;
        }
""", """            dest[out_idx + 2] = b2 << 6 | b3;
        }
        in_idx += 4;
""")]),
    ('r-static-table', 'S06', 'quiet', [(B, "    Base64Table table;\n\n    if(str_len > 0", "    static const Base64Table table;\n\n    if(str_len > 0")]),
    ('r-ns-table', 'S06', 'quiet', [(B, "    Base64Table table;\n\n    if(str_len > 0", "    const auto& table = base64_table;\n\n    if(str_len > 0"), (B, "vector<uint8_t> Tools::bytes_to_base64(", "static const Base64Table base64_table;\n\nvector<uint8_t> Tools::bytes_to_base64(")]),
    ('r-lambda', 'S06', 'quiet', [(B, "        if(b0 == table.val_invalid || b1 == table.val_invalid ||\n           b2 == table.val_invalid || b3 == table.val_invalid ||", "        const auto invalid = [&](uint8_t b) { return b == table.val_invalid; };\n        if(invalid(b0) || invalid(b1) || invalid(b2) || invalid(b3) ||")]),
]
