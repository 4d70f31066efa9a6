#include "cereal_engine.hpp"
namespace ce {
#if PARTNO == 0
void part_0(fns& f)
{
    CE_TEXT(immer::vector<int>);
    CE_T(immer::vector<std::string>);
    CE_T(immer::vector<immer::box<int>>);
    CE_T(immer::vector<immer::box<plain>>);
    CE_T(immer::vector<immer::vector<int>>);
    CE_T(immer::vector<double>);
    CE_T(immer::array<int>);
    CE_TEXT(immer::array<std::string>);
    CE_T(immer::array<immer::array<std::int64_t>>);
    CE_T(immer::vector<sparse>);
    CE_T(immer::vector<immer::box<sparse>>);
    CE_T(immer::array<sparse>);
}
#elif PARTNO == 1
void part_1(fns& f)
{
    CE_T(immer::flex_vector<int>);
    CE_T(immer::flex_vector<std::string>);
    CE_T(immer::flex_vector<immer::map<int, std::string>>);
    CE_T(immer::map<int, std::string>);
    CE_TEXT(immer::map<std::string, int>);
    CE_T(immer::map<std::string, with_id>);
    CE_T(immer::map<int, immer::set<int>>);
    CE_T(immer::map<key, immer::vector<int>>);
    CE_T(immer::map<color, immer::map<std::string, double>>);
    CE_T(immer::flex_vector<sparse>);
    CE_T(immer::map<int, sparse>);
}
#elif PARTNO == 2
void part_2(fns& f)
{
    CE_T(immer::set<int>);
    CE_T(immer::set<std::string>);
    CE_T(immer::set<key>);
    CE_TEXT(immer::set<pairish<int, std::string>>);
    CE_T(immer::box<int>);
    CE_TEXT(immer::box<immer::vector<std::string>>);
    CE_T(std::optional<int>);
    CE_T(std::optional<immer::vector<int>>);
    CE_T(immer::vector<std::optional<immer::box<plain>>>);
    CE_T(immer::box<sparse>);
    CE_T(std::optional<sparse>);
}
#elif PARTNO == 3
void part_3(fns& f)
{
    CE_T(std::variant<int, std::string, std::monostate>);
    CE_TEXT(std::variant<plain, immer::vector<int>, immer::set<int>, empty>);
    CE_T(immer::vector<std::variant<bool, plain, color>>);
    CE_T(std::tuple<int, std::string, bool>);
    CE_T(std::tuple<immer::vector<int>, immer::map<int, int>, std::optional<int>>);
    CE_T(immer::vector<std::tuple<color, std::string>>);
    CE_T(immer::map<int, std::variant<std::monostate, immer::set<int>>>);
    CE_T(std::tuple<>);
    CE_T(std::variant<int, sparse>);
}
#elif PARTNO == 4
void part_4(fns& f)
{
    CE_T(plain);
    CE_T(empty);
    CE_T(nested);
    CE_T(reflected);
    CE_T(reflected_camel);
    CE_T(immer::vector<reflected>);
    CE_T(pairish<immer::vector<nested>, std::optional<reflected>>);
    CE_T(pairish<color, immer::box<immer::flex_vector<plain>>>);
    CE_T(color);
    CE_T(immer::vector<color>);
    CE_T(pairish<immer::set<key>, immer::map<int, reflected_camel>>);
}
#endif
} // namespace ce
