#include "kbutil.h"
#define private public
#include <trident/utils/json.h>
#undef private
#include <trident/sparql/sparql.h>
#include <layers/TridentLayer.hpp>
using namespace kbu;
#include <iostream>
static std::vector<std::vector<std::string>> query(KB &kb, const std::string &text) {
    TridentLayer l(kb); JSON vars, res, stats;
    std::ostringstream o; std::streambuf *a = std::cout.rdbuf(o.rdbuf()), *b = std::cerr.rdbuf(o.rdbuf());
    SPARQLUtils::execSPARQLQuery(text, false, kb.getNTerms(), l, false, true, &vars, &res, &stats);
    std::cout.rdbuf(a); std::cerr.rdbuf(b);
    std::vector<std::vector<std::string>> r;
    for (auto &c : res.listchildren) {
        std::vector<std::string> row;
        for (auto &v : vars.listvalues) { auto i = c.children.find(v); row.push_back(i == c.children.end() ? "?" : i->second.values["value"]); }
        r.push_back(row);
    }
    return r;
}
