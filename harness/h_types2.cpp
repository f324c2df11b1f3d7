// C08, part 2 of the types
#include "types_all.h"
static void registerAll() {
    REG(std::string); REG(std::wstring); REG(std::vector<char>); REG(std::vector<unsigned char>);
    REG(std::vector<int>); REG(std::vector<int64_t>); REG(std::vector<uint16_t>); REG(std::vector<bool>); REG(std::vector<double>); REG(std::vector<float>); REG(std::vector<std::string>);
    REG(std::vector<std::vector<unsigned char>>); REG(std::vector<std::optional<std::string>>); REG(std::vector<std::vector<std::vector<int>>>);
}
