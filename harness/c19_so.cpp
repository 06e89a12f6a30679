#include "../stub/fake_fmilib.hpp"
#include "c19_iface.hpp"
#include "cosim/file_cache.hpp"
#include "cosim/fmi/fmu.hpp"
#include "cosim/fmi/importer.hpp"
#include "cosim/fmi/v1/fmu.hpp"
#include "cosim/fmi/v2/fmu.hpp"
#include "dsim.hpp"

#include <memory>

namespace fake
{
const Model* parse(int fmi, const char* dir, std::string& error)
{
    static const Model m1{"m", "g", "", "", "", fmi1_fmu_kind_enu_cs_standalone, false, {}};
    static const Model m2{"m", "g", "", "", "", fmi2_fmu_kind_cs, false, {}};
    if (dsim::fault(dsim::F_USER)) {
        error = "cannot parse";
        return nullptr;
    }
    return fmi == 1 ? &m1 : &m2;
}
void parsed(Import&) {}
int call(Import&, Fn, Args&) { return 0; }
void context(int) {}
} // namespace fake

namespace
{
struct Fmu : IFmu
{
    std::shared_ptr<cosim::fmi::fmu> f;
    std::string path() const override
    {
        if (auto p = std::dynamic_pointer_cast<cosim::fmi::v1::fmu>(f)) return p->directory().string();
        if (auto p = std::dynamic_pointer_cast<cosim::fmi::v2::fmu>(f)) return p->directory().string();
        return "";
    }
    const void* id() const override { return f.get(); }
    int fmi() const override { return f->fmi_version() == cosim::fmi::fmi_version::v1_0 ? 1 : 2; }
};
struct Importer : IImporter
{
    std::shared_ptr<cosim::file_cache> cache;
    std::shared_ptr<cosim::persistent_file_cache> persistent;
    std::shared_ptr<cosim::fmi::importer> i;
    IFmu* import(const std::string& path) override
    {
        auto f = std::make_unique<Fmu>();
        f->f = i->import(path);
        return f->f ? f.release() : nullptr;
    }
    void cleanup() override { persistent->cleanup(); }
};
struct Factory : ImporterFactory
{
    IImporter* make(const std::string& root, IImporter* other) override
    {
        auto m = std::make_unique<Importer>();
        if (other) {
            m->cache = static_cast<Importer*>(other)->cache;
            m->persistent = static_cast<Importer*>(other)->persistent;
        } else if (root.empty()) {
            m->cache = std::make_shared<cosim::temporary_file_cache>();
        } else {
            m->cache = m->persistent = std::make_shared<cosim::persistent_file_cache>(root);
        }
        m->i = cosim::fmi::importer::create(m->cache);
        return m.release();
    }
} factory;
} // namespace

extern "C" __attribute__((visibility("default"))) ImporterFactory* dsim_importer_factory() { return &factory; }
