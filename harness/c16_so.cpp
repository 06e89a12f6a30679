#include "c16_iface.hpp"
#include "cosim/file_cache.hpp"

#include <memory>

namespace
{
template<typename D>
struct Handle : IHandle
{
    std::unique_ptr<D> d;
    std::string path() const override { return d->path().string(); }
};
struct Cache : ICache
{
    std::unique_ptr<cosim::persistent_file_cache> c;
    IHandle* rw(const std::string& key) override
    {
        auto h = std::make_unique<Handle<cosim::file_cache::directory_rw>>();
        h->d = c->get_directory_rw(key);
        return h.release();
    }
    IHandle* ro(const std::string& key) override
    {
        auto h = std::make_unique<Handle<cosim::file_cache::directory_ro>>();
        h->d = c->get_directory_ro(key);
        return h.release();
    }
    void cleanup() override { c->cleanup(); }
};
struct Factory : CacheFactory
{
    ICache* make(const std::string& root) override
    {
        auto c = std::make_unique<Cache>();
        c->c = std::make_unique<cosim::persistent_file_cache>(root);
        return c.release();
    }
} factory;
} // namespace

extern "C" __attribute__((visibility("default"))) CacheFactory* dsim_cache_factory() { return &factory; }
