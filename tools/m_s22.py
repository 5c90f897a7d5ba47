H = 'include/Srl/Heap.h'
P = 'include/Srl/Heap.hpp'
C = 'src/lib/Heap.cpp'
S = 'S22'
M = [
    ('align-less', S, 'caught', [(P, "this->crr_seg->left < sz + alignof(T) - 1", "this->crr_seg->left < sz")]),
    ('no-offset-dec', S, 'caught', [(P, "this->crr_seg->dec(sz + offset);", "this->crr_seg->dec(sz);")]),
    ('no-align', S, 'caught', [(P, "        mem += offset;\n        this->crr_seg->dec(sz + offset);", "        this->crr_seg->dec(sz);")]),
    ('size-fit', S, 'caught', [(C, "return t.size >= size + align - 1 || (t.size >= size && (size_t)t.data % align == 0);", "return t.size >= size;")]),
    ('size-lt', S, 'caught', [(C, "return t.size >= size + align - 1 ||", "return t.size + 1 >= size + align - 1 ||")]),
    ('no-find-align', S, 'quiet', [(C, "return t.size >= size + align - 1 || (t.size >= size && (size_t)t.data % align == 0);", "return t.size >= size + align - 1;")]),
    ('alloc-sz', S, 'caught', [(C, "auto alloc_sz = this->cap > n ? this->cap : n;", "auto alloc_sz = this->cap;")]),
    ('alloc-more', S, 'quiet', [(C, "auto alloc_sz = this->cap > n ? this->cap : n;", "auto alloc_sz = this->cap > n + align ? this->cap : n + align;")]),
    ('put-all', S, 'caught', [(C, "this->put_mem(crr_seg->pointer(), this->crr_seg->left);", "this->put_mem(crr_seg->data, this->crr_seg->size);")]),
    ('clear-crr', S, 'caught', [(C, "        link = next;\n    }\n\n    this->crr_seg = nullptr;", "        link = next;\n    }\n")]),
    ('clear-left', S, 'caught', [(C, "        link.val.left = link.val.size;\n", "")]),
    ('move-crr', S, 'caught', [(C, "    m.chain = Chain();\n    m.crr_seg = nullptr;", "    m.chain = Chain();")]),
    ('move-chain', S, 'caught', [(C, "    m.chain = Chain();\n    m.crr_seg = nullptr;", "    m.crr_seg = nullptr;")]),
    ('move-nodestroy', S, 'caught', [(C, "    this->destroy();\n\n    this->cap     = m.cap;", "    this->cap     = m.cap;")]),
    ('move-keep-crr', S, 'caught', [(C, "    this->crr_seg = m.crr_seg;\n", "")]),
    ('sub-freed', S, 'caught', [(C, "    seg.sub_seg = true;", "    seg.sub_seg = false;")]),
    ('remove-back', S, 'caught', [(C, "    this->back  = link == back ? prev : back;\n", "")]),
    ('remove-prev', S, 'caught', [(C, "    if(prev) {\n        prev->next = link->next;\n    }\n    link->next = nullptr;", "    link->next = nullptr;")]),
    ('free-keeps', S, 'caught', [(C, "    free(this->chain.free_links);\n", "")]),
    ('find-keep', S, 'caught', [(C, "            remove(prev, link);\n            return link;", "            return link;")]),
    ('mask', S, 'quiet', [(P, "        auto rem    = (size_t)mem % alignof(T);\n        auto offset = rem ? alignof(T) - rem : 0;", "        auto offset = (alignof(T) - (size_t)mem % alignof(T)) % alignof(T);")]),
    ('mask-and', S, 'quiet', [(P, "        auto rem    = (size_t)mem % alignof(T);\n        auto offset = rem ? alignof(T) - rem : 0;", "        auto offset = -(size_t)mem & (alignof(T) - 1);")]),
    ('tight', S, 'quiet', [(P, "        if(!this->crr_seg || this->crr_seg->left < sz + alignof(T) - 1) {\n            this->crr_seg = this->alloc(sz, alignof(T));\n        }", "        const size_t most = sz + (alignof(T) - 1);\n        auto* seg = this->crr_seg;\n        if(seg == nullptr || most > seg->left) {\n            seg = this->alloc(sz, alignof(T));\n            this->crr_seg = seg;\n        }")]),
    ('put-small', S, 'quiet', [(C, "    if(this->crr_seg && crr_seg->left > 0) {", "    if(this->crr_seg && crr_seg->left > 8) {")]),
    ('swap-move', S, 'quiet', [(C, "    this->destroy();\n\n    this->cap     = m.cap;\n    this->crr_seg = m.crr_seg;\n    this->chain   = m.chain;\n\n    m.chain = Chain();\n    m.crr_seg = nullptr;\n", "    this->destroy();\n    std::swap(this->cap, m.cap);\n    std::swap(this->crr_seg, m.crr_seg);\n    std::swap(this->chain, m.chain);\n")]),
    ('no-memset', S, 'quiet', [(C, "        memset(data, 0, sz);\n        seg.data = data;", "        seg.data = data;")]),
    ('mask-up', S, 'quiet', [(P, "        auto rem    = (size_t)mem % alignof(T);\n        auto offset = rem ? alignof(T) - rem : 0;", "        const size_t at = (size_t)mem;\n        auto offset = ((at + alignof(T) - 1) & ~(alignof(T) - 1)) - at;")]),
    ('mod-up', S, 'quiet', [(P, "        auto rem    = (size_t)mem % alignof(T);\n        auto offset = rem ? alignof(T) - rem : 0;", "        auto offset = 0;\n        while((size_t)(mem + offset) % alignof(T)) { offset++; }")]),
    ('helper', S, 'quiet', [(P, "    template<class T>\n    T* Heap::get_mem(", "    inline size_t padding(const uint8_t* mem, size_t align)\n    {\n        const size_t rem = (size_t)mem & (align - 1);\n        return rem == 0 ? 0 : align - rem;\n    }\n\n    template<class T>\n    T* Heap::get_mem("), (P, "        auto rem    = (size_t)mem % alignof(T);\n        auto offset = rem ? alignof(T) - rem : 0;", "        const auto offset = padding(mem, alignof(T));")]),
    ('append', S, 'quiet', [(C, "            this->chain.free_segs.prepend(Size(link->val.val.size, 1), &link->val);", "            this->chain.free_segs.append(&link->val);")]),
]
