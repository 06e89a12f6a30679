// Interface between the workload (in the executable) and the code of one virtual process (in a shared object).
#ifndef C15_IFACE_HPP
#define C15_IFACE_HPP
struct ILock
{
    virtual ~ILock() = default;
    virtual void lock() = 0;
    virtual bool try_lock() = 0;
    virtual void unlock() = 0;
    virtual void lock_shared() = 0;
    virtual bool try_lock_shared() = 0;
    virtual void unlock_shared() = 0;
    virtual void relocate() = 0; // moves the lock object to another place
    virtual void assign(const char* path) = 0; // assigns a new, unlocked object
};
struct LockFactory
{
    virtual ~LockFactory() = default;
    virtual ILock* make(const char* path, int state) = 0; // 0 not locked, 1 locked, 2 shared
};
#endif
