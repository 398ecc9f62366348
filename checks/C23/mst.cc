// pbt: san=1
#include <iostream>
#include <albatross/Graph>
#include "pbt.hpp"

#include <algorithm>
#include <numeric>

using albatross::Edge;
using albatross::Graph;

namespace {

struct DSU {
  std::vector<int> p;
  explicit DSU(int n) : p(static_cast<std::size_t>(n)) {
    std::iota(p.begin(), p.end(), 0);
  }
  int find(int x) {
    while (p[static_cast<std::size_t>(x)] != x)
      x = p[static_cast<std::size_t>(x)];
    return x;
  }
  bool unite(int a, int b) {
    a = find(a);
    b = find(b);
    if (a == b)
      return false;
    p[static_cast<std::size_t>(a)] = b;
    return true;
  }
};

struct Raw {
  int n;
  std::vector<std::tuple<int, int, double>> edges; // unlabelled input
};

double gen_cost(pbt::Case &c, int style) {
  switch (style) {
  case 0:
    return static_cast<double>(c.i(0, 3)); // many ties
  case 1:
    return static_cast<double>(c.i(-5, 5));
  case 2:
    return c.real(-1, 1);
  case 3:
    return c.sym(1) * std::pow(10., static_cast<double>(c.i(0, 200)) - 100);
  default:
    return c.pick<double>({0., -0., 1., -1., 1e-300, 1e300, -1e300,
                           std::numeric_limits<double>::max(),
                           std::numeric_limits<double>::denorm_min()});
  }
}

Raw gen_graph(pbt::Case &c) {
  Raw g;
  g.n = static_cast<int>(c.usually(2, 14, 60));
  const int style = static_cast<int>(c.i(0, 4));
  const int topo = static_cast<int>(c.i(0, 4));
  const bool loops = c.chance(1, 3);
  const bool parallel = c.chance(1, 3);
  auto push = [&](int a, int b) {
    if (c.coin())
      std::swap(a, b);
    g.edges.emplace_back(a, b, gen_cost(c, style));
  };
  if (topo == 0) { // path
    for (int k = 1; k < g.n; ++k)
      push(k - 1, k);
  } else if (topo == 1) { // random tree plus some edges
    for (int k = 1; k < g.n; ++k)
      push(static_cast<int>(c.i(0, k - 1)), k);
    const long extra = c.i(0, 2 * g.n);
    for (long k = 0; k < extra; ++k) {
      int a = static_cast<int>(c.i(0, g.n - 1)),
          b = static_cast<int>(c.i(0, g.n - 1));
      if (a != b)
        push(a, b);
    }
  } else if (topo == 2) { // complete
    for (int a = 0; a < g.n; ++a)
      for (int b = 0; b < a; ++b)
        push(a, b);
  } else if (topo == 3) { // sparse random, often disconnected
    const long m = c.i(0, g.n + 2);
    for (long k = 0; k < m; ++k) {
      int a = static_cast<int>(c.i(0, g.n - 1)),
          b = static_cast<int>(c.i(0, g.n - 1));
      if (a != b)
        push(a, b);
    }
  } else { // two or three clusters
    const int parts = static_cast<int>(c.i(2, 3));
    for (int a = 0; a < g.n; ++a)
      for (int b = 0; b < a; ++b)
        if (a % parts == b % parts && c.chance(2, 3))
          push(a, b);
  }
  if (loops) {
    const long m = c.i(1, 3);
    for (long k = 0; k < m; ++k) {
      int a = static_cast<int>(c.i(0, g.n - 1));
      g.edges.emplace_back(a, a, gen_cost(c, style));
    }
  }
  if (parallel && !g.edges.empty()) {
    const long m = c.i(1, 3);
    for (long k = 0; k < m; ++k) {
      auto e = g.edges[static_cast<std::size_t>(
          c.i(0, static_cast<long>(g.edges.size()) - 1))];
      push(std::get<0>(e), std::get<1>(e));
    }
  }
  c.shuffle(g.edges);
  c.label_if(loops, "self loops");
  c.label_if(parallel, "parallel edges");
  c.show("n", g.n);
  for (auto &e : g.edges)
    c.note() << "(" << std::get<0>(e) << "," << std::get<1>(e) << ","
             << std::get<2>(e) << ")";
  c.sync();
  return g;
}

// sorted costs of an optimal forest of the sub-graph `keep`
std::vector<double> kruskal(const Raw &g, bool minimum,
                            const std::function<bool(int)> &keep) {
  std::vector<std::size_t> order(g.edges.size());
  std::iota(order.begin(), order.end(), std::size_t{0});
  std::sort(order.begin(), order.end(), [&](std::size_t a, std::size_t b) {
    double x = std::get<2>(g.edges[a]), y = std::get<2>(g.edges[b]);
    return minimum ? x < y : y < x;
  });
  DSU d(g.n);
  std::vector<double> out;
  for (auto k : order) {
    const auto &e = g.edges[k];
    if (!keep(std::get<0>(e)))
      continue;
    if (d.unite(std::get<0>(e), std::get<1>(e)))
      out.push_back(std::get<2>(e));
  }
  std::sort(out.begin(), out.end());
  return out;
}

template <typename V>
Graph<V> build(pbt::Case &c, const Raw &g, const std::vector<V> &names) {
  std::vector<Edge<V>> edges;
  std::size_t id = 100;
  for (const auto &e : g.edges)
    edges.emplace_back(names[static_cast<std::size_t>(std::get<0>(e))],
                       names[static_cast<std::size_t>(std::get<1>(e))],
                       std::get<2>(e), id++);
  if (c.coin())
    return albatross::create_graph(edges);
  Graph<V> out;
  for (const auto &e : edges)
    albatross::add_edge(e, &out);
  return out;
}

template <typename V>
void check_result(pbt::Case &c, const Raw &g, const std::vector<V> &names,
                  const Graph<V> &input, const Graph<V> &output, bool minimum,
                  bool forest, const std::string &what) {
  std::map<V, int> index;
  for (std::size_t k = 0; k < names.size(); ++k)
    index[names[k]] = static_cast<int>(k);
  // only input edges, each used at most once, same cost and id
  std::set<std::size_t> used;
  DSU d(g.n);
  std::vector<double> costs;
  for (const auto &e : output.edges) {
    c.check(index.count(e.a) && index.count(e.b), what + ": unknown vertex");
    bool found = false;
    if (e.id >= 100 && e.id - 100 < input.edges.size()) {
      const auto &in = input.edges[e.id - 100];
      found = ((in.a == e.a && in.b == e.b) || (in.a == e.b && in.b == e.a)) &&
              in.cost == e.cost;
    }
    c.check(found, what + ": an edge of the result is not an edge of the input");
    c.check(used.insert(e.id).second, what + ": an edge is used twice");
    c.check(d.unite(index[e.a], index[e.b]), what + ": the result has a cycle");
    costs.push_back(e.cost);
  }
  std::sort(costs.begin(), costs.end());
  // connectivity of the input
  DSU in(g.n);
  for (const auto &e : g.edges)
    in.unite(std::get<0>(e), std::get<1>(e));
  std::vector<double> expected;
  std::set<V> expected_vertices;
  if (forest) {
    expected = kruskal(g, minimum, [](int) { return true; });
  } else if (!g.edges.empty()) {
    // the component holding an edge of extreme cost
    double best = std::get<2>(g.edges[0]);
    for (const auto &e : g.edges)
      best = minimum ? std::min(best, std::get<2>(e))
                     : std::max(best, std::get<2>(e));
    // (with ties, the component of any of the extreme edges will do)
    bool matched = false;
    for (const auto &e : g.edges) {
      if (std::get<2>(e) != best || matched)
        continue;
      const int root = in.find(std::get<0>(e));
      if (!output.edges.empty() && in.find(index[output.edges[0].a]) != root)
        continue;
      expected =
          kruskal(g, minimum, [&](int v) { return in.find(v) == root; });
      matched = expected == costs;
    }
  }
  if (costs != expected) {
    std::ostringstream o;
    o.precision(17);
    o << what << ": edge costs of the result [";
    for (double x : costs)
      o << x << " ";
    o << "] differ from the optimum [";
    for (double x : expected)
      o << x << " ";
    o << "]";
    c.fail(o.str());
  }
  // the vertex set holds exactly the vertices of the edges (and possibly an
  // isolated start vertex)
  for (const auto &e : output.edges) {
    c.check(contains_vertex(output, e.a) && contains_vertex(output, e.b),
            what + ": vertex set misses an end of an edge");
  }
  for (const auto &v : output.vertices)
    c.check(index.count(v) > 0, what + ": unknown vertex in vertex set");
  if (!output.edges.empty())
    for (const auto &v : output.vertices) {
      bool touched = false;
      for (const auto &e : output.edges)
        touched = touched || e.a == v || e.b == v;
      c.check(touched, what + ": vertex set holds a vertex without edge");
    }
}

template <typename V>
bool same_edges(const Graph<V> &a, const Graph<V> &b) {
  if (a.edges.size() != b.edges.size() || a.vertices != b.vertices)
    return false;
  for (std::size_t k = 0; k < a.edges.size(); ++k)
    if (!(a.edges[k] == b.edges[k]) || a.edges[k].id != b.edges[k].id)
      return false;
  return true;
}

template <typename V>
void run(pbt::Case &c, const std::vector<V> &all_names) {
  Raw g = gen_graph(c);
  std::vector<V> names(all_names.begin(), all_names.begin() + g.n);
  c.shuffle(names); // the order of the vertices must not matter
  const Graph<V> input = build(c, g, names);
  const Graph<V> copy = input;
  DSU in(g.n);
  int merges = 0;
  for (const auto &e : g.edges)
    merges += in.unite(std::get<0>(e), std::get<1>(e));
  const bool cyclic = static_cast<int>(g.edges.size()) > merges;
  c.label_if(cyclic, "has cycles");
  c.label_if(merges < g.n - 1, "disconnected");
  c.nontrivial(cyclic && merges >= 2);
  check_result(c, g, names, input, minimum_spanning_tree(input), true, false,
               "minimum_spanning_tree");
  check_result(c, g, names, input, maximum_spanning_tree(input), false, false,
               "maximum_spanning_tree");
  check_result(c, g, names, input, minimum_spanning_forest(input), true, true,
               "minimum_spanning_forest");
  check_result(c, g, names, input, maximum_spanning_forest(input), false, true,
               "maximum_spanning_forest");
  c.check(same_edges(input, copy), "the input graph was modified");
}

} // namespace

PBT_CHECK(mst_int, 120000, 4000000,
          "weighted graphs on 2..14 (now and then 60) integer vertices (paths, trees plus "
          "chords, complete, sparse, clusters; ties, negative, extreme costs, "
          "self loops, parallel edges); non-trivial: at least one cycle and "
          "two tree edges.") {
  std::vector<int> names;
  for (int k = 0; k < 60; ++k)
    names.push_back(k * 7 - 20);
  run(c, names);
}

PBT_CHECK(mst_string, 40000, 1500000,
          "the same over string vertices; non-trivial as above.") {
  std::vector<std::string> names{"a", "b", "ab", "ba", "", "z", "Z", "0", "00",
                                 " ", "aa", "bb", "zz", "q"};
  for (int k = 0; k < 46; ++k)
    names.push_back("n" + std::to_string(k));
  run<std::string>(c, names);
}

PBT_CHECK(graph_queries, 40000, 1000000,
          "graphs built edge by edge; vertices, membership, adjacency and "
          "printing compared with the list of edges; non-trivial: 3+ edges.") {
  Raw g = gen_graph(c);
  std::vector<int> names;
  for (int k = 0; k < g.n; ++k)
    names.push_back(k);
  Graph<int> graph = build(c, g, names);
  c.nontrivial(g.edges.size() >= 3);
  c.eq(graph.edges.size(), g.edges.size(), "number of edges");
  std::set<int> vertices;
  std::map<int, std::vector<std::tuple<int, int, double, std::size_t>>> adj;
  std::size_t id = 100;
  for (const auto &e : g.edges) {
    const Edge<int> &got = graph.edges[id - 100];
    c.check(got.a == std::get<0>(e) && got.b == std::get<1>(e) &&
                got.cost == std::get<2>(e) && got.id == id,
            "edges are not stored in order");
    vertices.insert(got.a);
    vertices.insert(got.b);
    adj[got.a].emplace_back(got.a, got.b, got.cost, id);
    adj[got.b].emplace_back(got.b, got.a, got.cost, id);
    ++id;
  }
  c.check(graph.vertices == vertices, "vertex set");
  c.check(albatross::compute_vertices(graph.edges) == vertices,
          "compute_vertices");
  for (int v = -1; v <= g.n; ++v)
    c.check(contains_vertex(graph, v) == (vertices.count(v) > 0),
            "contains_vertex");
  const auto got = adjacency_map(graph);
  c.eq(got.size(), adj.size(), "adjacency size");
  for (auto &kv : adj) {
    c.check(got.count(kv.first) > 0, "adjacency misses a vertex");
    std::vector<std::tuple<int, int, double, std::size_t>> list;
    for (const auto &e : got.at(kv.first))
      list.emplace_back(e.a, e.b, e.cost, e.id);
    c.check(list == kv.second, "adjacency list of a vertex");
  }
  // printing goes to the stream it was asked to, one line per edge
  std::ostringstream os;
  os << graph;
  std::string expected;
  for (const auto &e : graph.edges) {
    std::ostringstream one;
    one << e;
    expected += one.str() + "\n";
    std::ostringstream ends;
    ends << e.a << " <--> " << e.b;
    c.check(one.str().rfind(ends.str(), 0) == 0, "printed edge");
  }
  c.eq(os.str(), expected, "printed graph");
  // ordering of edges is a strict weak order by cost, consistent with equality
  for (std::size_t k = 0; k + 1 < graph.edges.size(); ++k) {
    const auto &x = graph.edges[k], &y = graph.edges[k + 1];
    c.check(!(x < y && y < x), "edge order is not asymmetric");
    c.check(!(x < x), "edge order is not irreflexive");
    if (x.cost < y.cost)
      c.check(x < y && !(y < x) && !(x == y), "edge order ignores cost");
    if (x == y)
      c.check(x.cost == y.cost && x.a == y.a && x.b == y.b, "edge equality");
  }
}
