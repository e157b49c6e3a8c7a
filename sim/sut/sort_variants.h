// instantiations of the integer sort (included after the header under test)
template <typename T> struct SKey { T k; uint32_t id; };
template <typename K> struct SExt { K operator()(const SKey<K>& s) const { return s.k; } };
template <typename K> struct SMod { K m; K operator()(const SKey<K>& s) const { return (K)(s.k % m); } }; // extractor that computes
template <typename K, size_t W, typename E>
static void sort_as(std::vector<Item>& v, K maxKey, E ext, bool dflt) {
    std::vector<SKey<K>> t;
    t.reserve(v.size());
    for (auto& x : v) t.push_back(SKey<K>{(K)x.key, x.id});
    if (dflt) intsort::intsort(t.begin(), t.end(), ext, maxKey);
    else intsort::intsort<typename std::vector<SKey<K>>::iterator, E, K, W>(t.begin(), t.end(), ext, maxKey);
    for (size_t i = 0; i < t.size(); ++i) v[i] = Item{(uint64_t)t[i].k, t[i].id};
}
static bool sort_variant(std::vector<Item>& v, int variant, uint64_t maxKey) {
    switch (variant) {
        case 0: sort_as<uint32_t, 8>(v, (uint32_t)maxKey, SExt<uint32_t>(), true); return true;
        case 1: sort_as<uint64_t, 8>(v, (uint64_t)maxKey, SExt<uint64_t>(), true); return true;
        case 2: sort_as<uint32_t, 4>(v, (uint32_t)maxKey, SExt<uint32_t>(), false); return true;
        case 3: sort_as<uint32_t, 11>(v, (uint32_t)maxKey, SExt<uint32_t>(), false); return true;
        case 4: sort_as<uint32_t, 8>(v, (uint32_t)maxKey, SMod<uint32_t>{(uint32_t)maxKey + 1u ? (uint32_t)maxKey + 1u : ~0u}, true); return true;
        case 5: sort_as<uint32_t, 1>(v, (uint32_t)maxKey, SExt<uint32_t>(), false); return true;
        case 6: sort_as<uint16_t, 8>(v, (uint16_t)maxKey, SExt<uint16_t>(), true); return true;
        case 7: sort_as<int32_t, 8>(v, (int32_t)maxKey, SExt<int32_t>(), true); return true;
        default: return false;
    }
}
