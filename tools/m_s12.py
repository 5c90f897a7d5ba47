N = 'src/lib/Node.cpp'
T = 'src/lib/Tree.cpp'
S = 'S12'
M = [
    ('limit-ge', S, 'caught', [(N, "if(scope_depth + 1 > MAX_SAFE_NESTED_SCOPE_DEPTH)", "if(scope_depth + 1 >= MAX_SAFE_NESTED_SCOPE_DEPTH)")]),
    ('limit-late', S, 'caught', [(N, "if(scope_depth + 1 > MAX_SAFE_NESTED_SCOPE_DEPTH)", "if(scope_depth > MAX_SAFE_NESTED_SCOPE_DEPTH)")]),
    ('limit-256', S, 'caught', [(N, "int MAX_SAFE_NESTED_SCOPE_DEPTH = 128;", "int MAX_SAFE_NESTED_SCOPE_DEPTH = 256;")]),
    ('objects-only', S, 'caught', [(N, "if(scope_depth + 1 > MAX_SAFE_NESTED_SCOPE_DEPTH)", "if(val.type() == Type::Object && scope_depth + 1 > MAX_SAFE_NESTED_SCOPE_DEPTH)")]),
    ('first-only', S, 'caught', [(N, "link->field.read_source(scope_depth + 1);", "link->field.read_source(this->nodes.size() > 1 ? 0 : scope_depth + 1);")]),
    ('siblings', S, 'caught', [(N, "link->field.read_source(scope_depth + 1);", "link->field.read_source(++scope_depth);")]),
    ('char-depth', S, 'caught', [(N, "void Node::consume_scope()\n{\n    int depth = 0;", "void Node::consume_scope()\n{\n    int8_t depth = 0;")]),
    ('zero', S, 'caught', [(N, "            if(depth < 0) {\n                this->parsed = true;", "            if(depth <= 0) {\n                this->parsed = true;")]),
    ('skip-arrays', S, 'caught', [(N, "        if(TpTools::is_scope(tp)) {\n            depth++;", "        if(tp == Type::Object) {\n            depth++;")]),
    ('skip-rec', S, 'caught', [(N, "        if(TpTools::is_scope(tp)) {\n            depth++;\n            continue;", "        if(TpTools::is_scope(tp)) {\n            this->consume_scope();\n            this->parsed = false;\n            continue;")]),
    ('search-deep', S, 'caught', [(N, "if(scope_depth + 1 > MAX_SAFE_NESTED_SCOPE_DEPTH)", "if(scope_depth + 1 == MAX_SAFE_NESTED_SCOPE_DEPTH + 1 && this->env->parsing)")]),
    ('std-exc', S, 'caught', [(N, "throw Exception(\"Abort parsing data", "throw std::string(\"Abort parsing data")]),
    ('r-helper', S, 'quiet', [(N, "void Node::read_source(int scope_depth)\n{", "namespace { void check_depth(int d) { if(d > MAX_SAFE_NESTED_SCOPE_DEPTH) { throw Exception(\"Abort parsing data, nested too deep\"); } } }\n\nvoid Node::read_source(int scope_depth)\n{"),
                              (N, "            if(scope_depth + 1 > MAX_SAFE_NESTED_SCOPE_DEPTH) {\n                throw Exception(\"Abort parsing data MAX_SAFE_NESTED_SCOPE_DEPTH [\" + to_string(MAX_SAFE_NESTED_SCOPE_DEPTH) + \"] exceeded\");\n            }", "            check_depth(scope_depth + 1);")]),
    ('r-before', S, 'quiet', [(N, "    auto& parser = *this->env->parser;\n    auto& source = this->env->in;\n\n    while(true) {\n\n        MemBlock seg_name;", "    if(scope_depth > MAX_SAFE_NESTED_SCOPE_DEPTH) {\n        throw Exception(\"too deep\");\n    }\n    auto& parser = *this->env->parser;\n    auto& source = this->env->in;\n\n    while(true) {\n\n        MemBlock seg_name;"),
                              (N, "            if(scope_depth + 1 > MAX_SAFE_NESTED_SCOPE_DEPTH) {\n                throw Exception(\"Abort parsing data MAX_SAFE_NESTED_SCOPE_DEPTH [\" + to_string(MAX_SAFE_NESTED_SCOPE_DEPTH) + \"] exceeded\");\n            }\n", "")]),
    ('r-skip', S, 'quiet', [(N, "    int depth = 0;\n\n    auto& parser = *this->env->parser;\n    auto& source = this->env->in;\n\n    while(!this->parsed) {\n        auto tp = parser.read(source).second.type();\n        if(TpTools::is_scope(tp)) {\n            depth++;\n            continue;\n        }\n\n        if(tp == Type::Scope_End) {\n            depth--;\n            if(depth < 0) {\n                this->parsed = true;\n            }\n        }\n    }",
                              "    if(this->parsed) { return; }\n    size_t open = 1;\n    do {\n        const auto tp = this->env->parser->read(this->env->in).second.type();\n        open += TpTools::is_scope(tp) ? 1 : tp == Type::Scope_End ? -1 : 0;\n    } while(open > 0);\n    this->parsed = true;")]),
    ('r-const', S, 'quiet', [(N, "int MAX_SAFE_NESTED_SCOPE_DEPTH = 128;", "constexpr int MAX_SAFE_NESTED_SCOPE_DEPTH = 1 << 7;")]),
]
