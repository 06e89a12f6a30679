// The FMI Library stand-in: what a harness has to provide.
#ifndef DSIM_FAKE_FMILIB_HPP
#define DSIM_FAKE_FMILIB_HPP
#include <fmilib.h>

#include <string>
#include <vector>

namespace fake
{
enum Type
{
    REAL,
    INTEGER,
    BOOLEAN,
    STRING,
    ENUMERATION
};
struct Var
{
    std::string name;
    unsigned vr;
    Type type;
    int causality, variability; // fmi1_..._enu_t or fmi2_..._enu_t
    bool hasStart;
    double r;
    int i;
    bool b;
    std::string s;
};
struct Model
{
    std::string name, guid, description, author, version;
    int kind; // fmi1_fmu_kind_enu_t or fmi2_fmu_kind_enu_t
    bool once;
    std::vector<Var> vars;
};
enum Fn
{
    FREE,
    CREATE_DLL,
    DESTROY_DLL,
    INSTANTIATE,
    FREE_INSTANCE,
    SETUP, // FMI 2
    ENTER_INIT, // FMI 2
    EXIT_INIT, // FMI 2
    INITIALIZE, // FMI 1
    TERMINATE,
    STEP,
    GET,
    SET
};
struct Import // an fmi1_import_t or fmi2_import_t
{
    int fmi;
    const Model* model;
    std::string dir;
    fmi1_callback_functions_t cb1{};
    fmi2_callback_functions_t cb2{};
    void* user = nullptr; // the harness's
};
struct Args
{
    double t = 0, dt = 0, tolerance = 0, stop = 0;
    bool toleranceDefined = false, stopDefined = false;
    const char* name = nullptr;
    Type type = REAL;
    const unsigned* vr = nullptr;
    size_t n = 0;
    void* out = nullptr; // GET: array of the FMI type
    const void* in = nullptr; // SET
};
// Provided by the harness:
const Model* parse(int fmi, const char* dir, std::string& error); // null: failure
void parsed(Import&);
int call(Import&, Fn, Args&); // fmi1_status_t, fmi2_status_t or jm_status_enu_t
void context(int change);
} // namespace fake
#endif
