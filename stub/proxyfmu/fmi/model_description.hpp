// Stand-in for the proxyfmu library's header (only what libcosim uses).
#ifndef PROXYFMU_STUB_MODEL_DESCRIPTION_HPP
#define PROXYFMU_STUB_MODEL_DESCRIPTION_HPP
#include <optional>
#include <string>
#include <variant>
#include <vector>

namespace proxyfmu::fmi
{
using value_ref = unsigned int;
struct integer
{
    std::optional<int> start;
};
struct real
{
    std::optional<double> start;
};
struct string
{
    std::optional<std::string> start;
};
struct boolean
{
    std::optional<bool> start;
};
struct enumeration
{
    std::optional<int> start;
};
struct scalar_variable
{
    value_ref vr = 0;
    std::string name, description, causality, variability;
    std::variant<integer, real, string, boolean, enumeration> typeAttribute;
    bool is_integer() const { return typeAttribute.index() == 0; }
    bool is_real() const { return typeAttribute.index() == 1; }
    bool is_string() const { return typeAttribute.index() == 2; }
    bool is_boolean() const { return typeAttribute.index() == 3; }
};
struct model_description
{
    std::string guid, author, description, modelName, modelIdentifier, fmiVersion;
    std::vector<scalar_variable> modelVariables;
};
} // namespace proxyfmu::fmi
#endif
