// A reference evaluator for the SPARQL fragment that is explored, and access to the real engine.
#ifndef SPARQLREF_H
#define SPARQLREF_H
#include "kbutil.h"
#define private public
#include <trident/utils/json.h>
#undef private
#include <layers/TridentLayer.hpp>
#include <trident/sparql/sparql.h>
namespace sq {
typedef std::vector<std::string> Row;              // one string per projected variable, "" = unbound
struct Res { bool answered = false; std::vector<std::string> vars; std::vector<Row> rows; };
struct Quiet { // discards what the engine prints
    std::ostringstream o; std::streambuf *a, *b;
    Quiet() { a = std::cout.rdbuf(o.rdbuf()); b = std::cerr.rdbuf(o.rdbuf()); }
    ~Quiet() { std::cout.rdbuf(a); std::cerr.rdbuf(b); }
};
inline Res run(KB &kb, const std::string &query, std::string *printed = 0) {
    TridentLayer l(kb);
    JSON vars, res, stats;
    Res r;
    {
        Quiet q;
        SPARQLUtils::execSPARQLQuery(query, false, kb.getNTerms(), l, false, true, &vars, &res, &stats);
        if (printed) *printed = q.o.str();
    }
    r.vars = vars.listvalues;
    for (auto &c : res.listchildren) {
        Row row;
        for (auto &v : r.vars) {
            auto i = c.children.find(v);
            if (i == c.children.end()) { row.push_back("(missing)"); continue; }
            std::string t = i->second.values["type"], x = i->second.values["value"];
            row.push_back(t == "uri" ? "<" + x + ">" : x == "NULL" ? "" : x);
        }
        r.rows.push_back(row);
    }
    r.answered = stats.values.count("nresults");
    if (r.answered && stats.values["nresults"] != std::to_string(r.rows.size())) vh::fail(query + ": reports " + stats.values["nresults"] + " results but gives " + std::to_string(r.rows.size()));
    return r;
}
inline std::string show(std::vector<Row> rows) {
    std::string s;
    for (auto &r : rows) { s += "("; for (auto &x : r) s += x + " "; s += ")"; }
    return s;
}
}
#endif
