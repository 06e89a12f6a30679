#include "c15_iface.hpp"
#include "cosim/utility/concurrency.hpp"

#include <memory>

namespace
{
using cosim::utility::file_lock;
using cosim::utility::file_lock_initial_state;
struct Lock : ILock
{
    std::unique_ptr<file_lock> l;
    void lock() override { l->lock(); }
    bool try_lock() override { return l->try_lock(); }
    void unlock() override { l->unlock(); }
    void lock_shared() override { l->lock_shared(); }
    bool try_lock_shared() override { return l->try_lock_shared(); }
    void unlock_shared() override { l->unlock_shared(); }
    void relocate() override { l = std::make_unique<file_lock>(std::move(*l)); }
    void assign(const char* path) override { *l = file_lock(cosim::filesystem::path(path)); }
};
struct Factory : LockFactory
{
    ILock* make(const char* path, int state) override
    {
        auto r = std::make_unique<Lock>();
        // (the default argument is part of the interface)
        if (state == 0)
            r->l = std::make_unique<file_lock>(cosim::filesystem::path(path));
        else
            r->l = std::make_unique<file_lock>(cosim::filesystem::path(path), state == 1 ? file_lock_initial_state::locked : file_lock_initial_state::locked_shared);
        return r.release();
    }
} factory;
} // namespace

extern "C" __attribute__((visibility("default"))) LockFactory* dsim_lock_factory() { return &factory; }
