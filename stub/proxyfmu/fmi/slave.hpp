// Stand-in for the proxyfmu library's header (only what libcosim uses).
#ifndef PROXYFMU_STUB_SLAVE_HPP
#define PROXYFMU_STUB_SLAVE_HPP
#include <proxyfmu/fmi/model_description.hpp>

#include <memory>
#include <string>
#include <vector>

namespace proxyfmu::fmi
{
class slave
{
public:
    const std::string instanceName;
    explicit slave(std::string name)
        : instanceName(std::move(name))
    { }
    slave(const slave&) = delete;
    virtual const model_description& get_model_description() const = 0;
    virtual bool setup_experiment(double startTime = 0, double stopTime = 0, double tolerance = 0) = 0;
    virtual bool enter_initialization_mode() = 0;
    virtual bool exit_initialization_mode() = 0;
    virtual bool step(double currentTime, double stepSize) = 0;
    virtual bool reset() = 0;
    virtual bool terminate() = 0;
    virtual void freeInstance() = 0;
    virtual bool get_integer(const std::vector<value_ref>& vr, std::vector<int>& values) = 0;
    virtual bool get_real(const std::vector<value_ref>& vr, std::vector<double>& values) = 0;
    virtual bool get_string(const std::vector<value_ref>& vr, std::vector<std::string>& values) = 0;
    virtual bool get_boolean(const std::vector<value_ref>& vr, std::vector<bool>& values) = 0;
    virtual bool set_integer(const std::vector<value_ref>& vr, const std::vector<int>& values) = 0;
    virtual bool set_real(const std::vector<value_ref>& vr, const std::vector<double>& values) = 0;
    virtual bool set_string(const std::vector<value_ref>& vr, const std::vector<std::string>& values) = 0;
    virtual bool set_boolean(const std::vector<value_ref>& vr, const std::vector<bool>& values) = 0;
    virtual ~slave() = default;
};
} // namespace proxyfmu::fmi
#endif
