T = 'include/Srl/TpTools.h'
V = 'include/Srl/Value.hpp'
R = 'include/Srl/Resolve.hpp'
M = [
    ('neg-unsigned', 'S07', 'caught', [(T, "if((!std::is_signed<T>::value && val < 0) || overflows<T>(val)) {", "if(overflows<T>(val)) {")]),
    ('neg-unsigned-small', 'S07', 'caught', [(T, "if((!std::is_signed<T>::value && val < 0) || overflows<T>(val)) {", "if((!std::is_signed<T>::value && sizeof(T) == 8 && val < 0) || (std::is_signed<T>::value && overflows<T>(val)) || (val > 0 && overflows<T>(val))) {")]),
    ('min-lost', 'S07', 'caught', [(T, "return val > max<T>() || val < min<T>();", "return val > max<T>();")]),
    ('min-off', 'S07', 'caught', [(T, "return val > max<T>() || val < min<T>();", "return val > max<T>() || val <= min<T>();")]),
    ('max-eq', 'S07', 'caught', [(T, "            return val > max<T>();\n", "            return val >= max<T>();\n")]),
    ('u64-s64', 'S07', 'caught', [(T, "? val > max<U>() >> 1", "? val > max<U>()")]),
    ('u64-s64-off', 'S07', 'caught', [(T, "? val > max<U>() >> 1", "? val > (max<U>() >> 1) + 1")]),
    ('fp-nan', 'S07', 'caught', [(T, "(val < min<T>() || val > (double)max<T>() || !fits_integral<T>(val))) {", "(val < min<T>() || val > (double)max<T>() || val >= 2.0 * (double)(max<T>() / 2 + 1))) {")]),
    ('fp-2^63', 'S07', 'caught', [(T, "return val < 2.0 * (double)(max<T>() / 2 + 1);", "return val <= 2.0 * (double)(max<T>() / 2 + 1);")]),
    ('fp-min', 'S07', 'caught', [(T, "(val < min<T>() || val > (double)max", "(val > (double)max")]),
    ('fp-float', 'S07', 'caught', [(T, "double val = TP == Type::FP32 ? value.pblock().fp32 : value.pblock().fp64;", "float val = TP == Type::FP32 ? value.pblock().fp32 : value.pblock().fp64;")]),
    ('fp-result-float', 'S07', 'caught', [(T, "target = TP == Type::FP32 ? value.pblock().fp32 : value.pblock().fp64;", "float f = TP == Type::FP32 ? value.pblock().fp32 : value.pblock().fp64; target = f;")]),
    ('fp32-cond', 'S07', 'caught', [(V, "if((float)val == val) {", "if((float)val - val < 1e-9 && val - (float)val < 1e-9) {")]),
    ('signed-half', 'S07', 'caught', [(V, "this->block.i64 = val;", "this->block.i64 = (int32_t)val;")]),
    ('unsigned-half', 'S07', 'caught', [(V, "this->block.ui64 = val;", "this->block.ui64 = 0; memcpy(this->block.local_data, &val, sizeof(val) > 4 ? 7 : sizeof(val));")]),
    ('ignored', 'S07', 'caught', [(R, "            if(!success) {\n                auto msg = \"Cannot cast", "            if(!success && type != Type::UI16) {\n                auto msg = \"Cannot cast")]),
    ('ignored-str', 'S07', 'caught', [(R, "            if(!conv.first) {", "            if(!conv.first && wrap.size() == 0) {")]),
    ('ld-float', 'S07', 'caught', [(R, "            double d;\n            Switch<double>::Paste(d, value, id);", "            float d;\n            Switch<float>::Paste(d, value, id);")]),
    ('i64-double', 'S07', 'caught', [(T, "            int64_t val = value.pblock().i64;\n", "            int64_t val = (int64_t)(double)(value.pblock().i64 >> 1) * 2 + (value.pblock().i64 & 1);\n")]),
    # behaviour kept
    ('r-limits', 'S07', 'quiet', [(T, "return val > max<T>() || val < min<T>();", "if(std::is_floating_point<T>::value) { return false; }\n            const U back = (U)(T)val;\n            return back != val;")]),
    ('r-max', 'S07', 'quiet', [(T, "            return val > max<T>();\n", "            return std::is_integral<T>::value && !(val <= (U)max<T>());\n")]),
    ('r-order', 'S07', 'quiet', [(T, """            if((!std::is_signed<T>::value && val < 0) || overflows<T>(val)) {
                return false;
            }

            target = val;

            return true;""", """            const bool fits = !overflows<T>(val) && (std::is_signed<T>::value || val >= 0);

            if(fits) target = static_cast<T>(val);

            return fits;""")]),
    ('r-fp', 'S07', 'quiet', [(T, """            target = TP == Type::FP32 ? value.pblock().fp32 : value.pblock().fp64;
            return true;""", """            target = static_cast<T>(val);
            return true;""")]),
    ('r-throw', 'S07', 'quiet', [(R, """            auto success = TpTools::apply_type(o, value);

            if(!success) {
                auto msg""", """            if(TpTools::apply_type(o, value)) { return; }

            {
                auto msg""")]),
    ('r-value', 'S07', 'quiet', [(V, "            if((float)val == val) {\n                this->block.fp32 = val;", "            const float single = (float)val;\n            if(!(single != val)) {\n                this->block.fp32 = single;")]),
]
