// Stand-in for the proxyfmu library's header (only what libcosim uses).
#ifndef PROXYFMU_STUB_REMOTE_INFO_HPP
#define PROXYFMU_STUB_REMOTE_INFO_HPP
#include <string>
namespace proxyfmu
{
class remote_info
{
public:
    remote_info(std::string host, int port)
        : host_(std::move(host))
        , port_(port)
    { }
    const std::string& host() const { return host_; }
    int port() const { return port_; }

private:
    std::string host_;
    int port_;
};
} // namespace proxyfmu
#endif
