// stand-in: hands the graph to the harness and takes any permutation from it
#pragma once
#include <vector>
#include <boost/graph/graph_traits.hpp>
void vh_boost_mmd(const std::vector<std::vector<long>> &g, std::vector<long> &perm);
namespace boost {
template <class G, class Deg, class Inv, class Perm, class Sup, class Id>
void minimum_degree_ordering(G &g, Deg, Inv inv, Perm perm, Sup supernodes, int delta, Id)
{
    std::vector<std::vector<long>> a(num_vertices(g));
    auto es = edges(g);
    for (auto e = es.first; e != es.second; ++e) a[source(*e, g)].push_back(target(*e, g));
    std::vector<long> p;
    vh_boost_mmd(a, p);
    for (size_t i = 0; i < p.size(); i++) perm[i] = p[i], inv[p[i]] = i;
}
}
