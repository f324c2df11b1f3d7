// C08, part 4 of the types
#include "types_all.h"
static void registerAll() {
    REG(std::pair<int, std::string>); REG(std::pair<std::vector<int>, std::map<int, bool>>); REG(std::tuple<int, std::string, double, bool>); REG(std::array<int, 5>);
    REG(std::optional<int>); REG(std::optional<std::string>); REG(std::optional<std::vector<double>>); REG(std::shared_ptr<std::string>); REG(std::complex<double>);
    REG(Plain); REG(Deep); REG(Named); REG(Fixed); REG(std::vector<Fixed>); REG(Color); REG(std::vector<Plain>); REG(std::map<std::string, Deep>); REG(std::optional<Plain>);
}
