// C08, part 3 of the types
#include "types_all.h"
static void registerAll() {
    REG(std::set<int>); REG(std::set<std::string>); REG(std::multiset<short>); REG(std::unordered_set<std::string>);
    REG(std::map<std::string, int>); REG(std::map<int, std::string>); REG(std::map<std::string, std::vector<std::map<uint8_t, std::string>>>); REG(std::multimap<int, int>); REG(std::unordered_map<std::string, int64_t>); REG(std::map<int64_t, std::optional<bool>>);
    REG(std::list<std::string>); REG(std::deque<uint32_t>); REG(std::forward_list<int>);
}
