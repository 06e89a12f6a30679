#ifndef C19_IFACE_HPP
#define C19_IFACE_HPP
#include <string>
struct IFmu
{
    virtual ~IFmu() = default;
    virtual std::string path() const = 0;
    virtual const void* id() const = 0;
    virtual int fmi() const = 0;
};
struct IImporter
{
    virtual ~IImporter() = default;
    virtual IFmu* import(const std::string& path) = 0; // null: the importer returned a null pointer
    virtual void cleanup() = 0;
};
struct ImporterFactory
{
    virtual ~ImporterFactory() = default;
    // `root' empty: a temporary cache; `other': share its cache object
    virtual IImporter* make(const std::string& root, IImporter* other) = 0;
};
#endif
