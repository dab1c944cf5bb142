#ifndef VERIF_KSORTER_H
#define VERIF_KSORTER_H
#include <kognac/kshim.h>
// external sort of files of K; the model sorts in memory
class Sorter {
public:
    template<class K> static std::vector<std::string> sortFiles(std::vector<std::string> in, std::string prefix) {
        std::vector<K> v;
        for (auto &f : in) { LZ4Reader r(f); while (!r.isEof()) { K k; k.readFrom(&r); v.push_back(k); } }
        std::stable_sort(v.begin(), v.end(), [](const K &a, const K &b) { return b.greater(a); });
        std::string out = prefix + ".sorted";
        { LZ4Writer w(out); for (auto &k : v) k.writeTo(&w); }
        return std::vector<std::string>(1, out);
    }
};
#endif
