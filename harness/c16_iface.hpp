#ifndef C16_IFACE_HPP
#define C16_IFACE_HPP
#include <string>
struct IHandle
{
    virtual ~IHandle() = default;
    virtual std::string path() const = 0;
};
struct ICache
{
    virtual ~ICache() = default;
    virtual IHandle* rw(const std::string& key) = 0;
    virtual IHandle* ro(const std::string& key) = 0;
    virtual void cleanup() = 0;
};
struct CacheFactory
{
    virtual ~CacheFactory() = default;
    virtual ICache* make(const std::string& root) = 0;
};
#endif
