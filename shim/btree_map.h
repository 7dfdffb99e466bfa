// Stands in for cpp-btree, which the project fetches from the net: an ordered
// multimap with the same interface (its iterators live longer than a btree's).
#ifndef SHIM_BTREE_MAP_H
#define SHIM_BTREE_MAP_H
#include <map>
namespace btree {
template <class K, class V>
using btree_multimap = std::multimap<K, V>;
template <class K, class V>
using btree_map = std::map<K, V>;
}  // namespace btree
#endif
