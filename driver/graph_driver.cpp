// Histories of operations on the graph classes; every answer carries the
// whole observable state after each operation.
#include "jsonio.h"
#include "lib/Utils/Graph/Graph.h"
using namespace hv;
using namespace mlir::heir::graph;
using G = Graph<int64_t>;

static Array pairs(const std::set<std::pair<int64_t, int64_t>>& s) {
  Array r;
  for (auto& [a, b] : s) r.push_back(Array{a, b});
  return r;
}
static Object obs(G& g, const std::vector<int64_t>& probe) {
  Object o;
  o["v"] = A(g.getVertices());
  o["e"] = pairs(g.getEdges());
  Array out, in, deg, has;
  for (auto p : probe) {
    out.push_back(A(g.edgesOutOf(p)));
    in.push_back(A(g.edgesInto(p)));
    deg.push_back(Array{(int64_t)g.getInDegree(p), (int64_t)g.getOutDegree(p), g.contains(p) ? 1 : 0});
    Array h;
    for (auto q : probe) h.push_back(g.hasEdge(p, q) ? 1 : 0);
    has.push_back(std::move(h));
  }
  o["out"] = std::move(out);
  o["in"] = std::move(in);
  o["deg"] = std::move(deg);
  o["has"] = std::move(has);
  o["empty"] = g.empty();
  return o;
}
template <class T>
static Value fo(T r) {
  Object o;
  o["ok"] = mlir::succeeded(r);
  o["r"] = Array{};
  if (mlir::succeeded(r)) o["r"] = A(*r);
  return o;
}
int main() {
  return run([](const Object& c) -> Value {
    auto probe = L(c, "probe");
    if (S(c, "c") == "color") {
      Array res;
      GreedyGraphColoring<int64_t> colorer;   // one colorer for all graphs
      for (auto& gv : *c.getArray("graphs")) {
        auto& go = *gv.getAsObject();
        UndirectedGraph<int64_t> g;
        for (auto v : L(go, "v")) g.addVertex(v);
        Array acc;
        for (auto& e : LL(go, "e")) acc.push_back(g.addEdge(e[0], e[1]));
        auto col = colorer.color(g);
        Array cs, inc, has;
        std::map<int64_t, int> ord(col.begin(), col.end());
        for (auto& [v, k] : ord) cs.push_back(Array{v, k});
        for (auto p : probe) {
          inc.push_back(A(g.edgesIncidentTo(p)));
          Array h;
          for (auto q : probe) h.push_back(g.hasEdge(p, q) ? 1 : 0);
          has.push_back(std::move(h));
        }
        res.push_back(Object{{"color", std::move(cs)}, {"inc", std::move(inc)}, {"has", std::move(has)}, {"acc", std::move(acc)},
                             {"v", A(g.getVertices())}, {"empty", g.empty()}});
      }
      return Object{{"res", std::move(res)}};
    }
    G g;
    Array steps;
    for (auto& hv_ : *c.getArray("ops")) {
      auto& h = *hv_.getAsArray();
      std::string k = h[0].getAsString()->str();
      auto arg = [&](int i) { return *h[i].getAsInteger(); };
      Object r;
      Array merges;
      auto rec = [&](int64_t& s, const int64_t& t) { merges.push_back(Array{s, t}); };
      if (k == "v") { g.addVertex(arg(1)); r["ret"] = true; }
      else if (k == "e") r["ret"] = g.addEdge(arg(1), arg(2));
      else if (k == "w") r["ret"] = g.addEdge(arg(1), arg(2), (int)arg(3));
      else if (k == "contract") r["ret"] = g.contractEdge(arg(1), arg(2), rec);
      else if (k == "contract0") r["ret"] = g.contractEdge(arg(1), arg(2));
      else if (k == "condense") { g.condenseGraph(rec); r["ret"] = true; }
      else if (k == "obs") {
        r["ret"] = true;
        r["scc"] = AA(g.getStronglyConnectedComponents());
        r["topo"] = fo(g.topologicalSort());
        auto lv = g.sortGraphByLevels();
        Object lo;
        lo["ok"] = mlir::succeeded(lv);
        lo["r"] = Array{};
        if (mlir::succeeded(lv)) lo["r"] = AA(*lv);
        r["levels"] = std::move(lo);
        r["src"] = A(g.getSources());
        r["snk"] = A(g.getSinks());
        r["crit"] = fo(g.findApproximateCriticalPath());
        r["longest"] = fo(g.getLongestSourceToSinkPath());
        Array sp, wp;
        auto wf = LL(c, "wt");
        std::function<uint64_t(int64_t, int64_t)> wt = [&](int64_t a, int64_t b) -> uint64_t { return wf.at(a).at(b); };
        for (auto p : probe) {
          Array row, wrow;
          for (auto q : probe) {
            row.push_back(fo(g.getShortestPath(p, q)));
            if (!wf.empty()) wrow.push_back(fo(g.getShortestPath(p, q, wt)));
          }
          sp.push_back(std::move(row));
          wp.push_back(std::move(wrow));
        }
        r["sp"] = std::move(sp);
        r["wp"] = std::move(wp);
      }
      r["merges"] = std::move(merges);
      r["obs"] = obs(g, probe);
      steps.push_back(std::move(r));
    }
    return Object{{"steps", std::move(steps)}};
  });
}
