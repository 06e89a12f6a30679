// Stand-in for the proxyfmu library's header (only what libcosim uses).
#ifndef PROXYFMU_STUB_FMU_HPP
#define PROXYFMU_STUB_FMU_HPP
#include <proxyfmu/fmi/slave.hpp>

#include <memory>

namespace proxyfmu::fmi
{
class fmu
{
public:
    fmu() = default;
    fmu(const fmu&) = delete;
    virtual const model_description& get_model_description() const = 0;
    virtual std::unique_ptr<slave> new_instance(const std::string& instanceName) = 0;
    virtual ~fmu() = default;
};
} // namespace proxyfmu::fmi
#endif
