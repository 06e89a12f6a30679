// Stand-in for the proxyfmu library's header (only what libcosim uses). The harness implements it.
#ifndef PROXYFMU_STUB_PROXY_FMU_HPP
#define PROXYFMU_STUB_PROXY_FMU_HPP
#include <proxyfmu/fmi/fmu.hpp>
#include <proxyfmu/fs_portability.hpp>
#include <proxyfmu/remote_info.hpp>

#include <optional>

namespace proxyfmu::client
{
class proxy_fmu : public fmi::fmu
{
public:
    explicit proxy_fmu(const filesystem::path& fmuPath, const std::optional<remote_info>& remote = std::nullopt);
    const fmi::model_description& get_model_description() const override;
    std::unique_ptr<fmi::slave> new_instance(const std::string& instanceName) override;

private:
    int index_;
};
} // namespace proxyfmu::client
#endif
