// Stand-in for ska/flat_hash_map.hpp (fetched by the project's own build, not
// available offline).  Only what spectator/publisher.h needs.
#pragma once
#include <functional>
#include <unordered_map>
namespace ska {
template <typename K, typename V, typename H = std::hash<K>,
          typename E = std::equal_to<K>>
using flat_hash_map = std::unordered_map<K, V, H, E>;
}
