#include "fake_fmilib.hpp"

#include "dsim.hpp"

#include <stdio.h>
#include <string.h>

using namespace fake;

struct fmi_xml_context_t
{
    jm_callbacks* cb;
};
struct fmi1_import_t : Import
{
};
struct fmi2_import_t : Import
{
};
struct fmi1_import_variable_list_t
{
    const Model* m;
};
struct fmi2_import_variable_list_t
{
    const Model* m;
};
namespace
{
int quiet_call(Import& i, Fn f, Args& a)
{
    dsim::NoAllocFaults na;
    return call(i, f, a);
}
template<typename T>
const Var* var(T* v)
{
    return reinterpret_cast<const Var*>(v);
}
template<typename T>
T* as(const void* p)
{
    return reinterpret_cast<T*>(const_cast<void*>(p));
}
void set_error(jm_callbacks* cb, const std::string& s) { snprintf(cb->errMessageBuffer, sizeof cb->errMessageBuffer, "%s", s.c_str()); }
template<typename I>
I* parse_xml(fmi_import_context_t* c, const char* dir, int fmi)
{
    dsim::NoAllocFaults na;
    std::string error;
    const Model* m = parse(fmi, dir, error);
    if (!m) {
        set_error(c->cb, error);
        return nullptr;
    }
    auto i = new I;
    i->fmi = fmi;
    i->model = m;
    i->dir = dir;
    parsed(*i);
    return i;
}
int access(Import* i, Fn f, Type t, const unsigned* vr, size_t n, void* out, const void* in)
{
    Args a;
    a.type = t;
    a.vr = vr;
    a.n = n;
    a.out = out;
    a.in = in;
    return quiet_call(*i, f, a);
}
template<typename S>
S simple(Import* i, Fn f)
{
    Args a;
    return static_cast<S>(quiet_call(*i, f, a));
}
} // namespace

extern "C" {
jm_string jm_get_last_error(jm_callbacks* cb) { return cb->errMessageBuffer; }
fmi_import_context_t* fmi_import_allocate_context(jm_callbacks* cb)
{
    dsim::NoAllocFaults na;
    context(1);
    return new fmi_xml_context_t{cb};
}
void fmi_import_free_context(fmi_import_context_t* c)
{
    context(-1);
    delete c;
}

#define COMMON(N) \
    void fmi##N##_import_free(fmi##N##_import_t* i) \
    { \
        Args a; \
        quiet_call(*i, FREE, a); \
        delete i; \
    } \
    const char* fmi##N##_import_get_model_name(fmi##N##_import_t* i) { return i->model->name.c_str(); } \
    const char* fmi##N##_import_get_GUID(fmi##N##_import_t* i) { return i->model->guid.c_str(); } \
    const char* fmi##N##_import_get_description(fmi##N##_import_t* i) { return i->model->description.c_str(); } \
    const char* fmi##N##_import_get_author(fmi##N##_import_t* i) { return i->model->author.c_str(); } \
    const char* fmi##N##_import_get_model_version(fmi##N##_import_t* i) { return i->model->version.c_str(); } \
    void fmi##N##_import_free_variable_list(fmi##N##_import_variable_list_t* l) { delete l; } \
    size_t fmi##N##_import_get_variable_list_size(fmi##N##_import_variable_list_t* l) { return l->m->vars.size(); } \
    const char* fmi##N##_import_get_variable_name(fmi##N##_import_variable_t* v) { return var(v)->name.c_str(); } \
    fmi##N##_value_reference_t fmi##N##_import_get_variable_vr(fmi##N##_import_variable_t* v) { return var(v)->vr; } \
    fmi##N##_base_type_enu_t fmi##N##_import_get_variable_base_type(fmi##N##_import_variable_t* v) { return static_cast<fmi##N##_base_type_enu_t>(var(v)->type); } \
    fmi##N##_causality_enu_t fmi##N##_import_get_causality(fmi##N##_import_variable_t* v) { return static_cast<fmi##N##_causality_enu_t>(var(v)->causality); } \
    fmi##N##_variability_enu_t fmi##N##_import_get_variability(fmi##N##_import_variable_t* v) { return static_cast<fmi##N##_variability_enu_t>(var(v)->variability); } \
    int fmi##N##_import_get_variable_has_start(fmi##N##_import_variable_t* v) { return var(v)->hasStart; } \
    fmi##N##_import_real_variable_t* fmi##N##_import_get_variable_as_real(fmi##N##_import_variable_t* v) { return var(v)->type == REAL ? as<fmi##N##_import_real_variable_t>(v) : nullptr; } \
    fmi##N##_import_integer_variable_t* fmi##N##_import_get_variable_as_integer(fmi##N##_import_variable_t* v) { return var(v)->type == INTEGER ? as<fmi##N##_import_integer_variable_t>(v) : nullptr; } \
    fmi##N##_import_bool_variable_t* fmi##N##_import_get_variable_as_boolean(fmi##N##_import_variable_t* v) { return var(v)->type == BOOLEAN ? as<fmi##N##_import_bool_variable_t>(v) : nullptr; } \
    fmi##N##_import_string_variable_t* fmi##N##_import_get_variable_as_string(fmi##N##_import_variable_t* v) { return var(v)->type == STRING ? as<fmi##N##_import_string_variable_t>(v) : nullptr; } \
    fmi##N##_real_t fmi##N##_import_get_real_variable_start(fmi##N##_import_real_variable_t* v) { return var(v)->r; } \
    fmi##N##_integer_t fmi##N##_import_get_integer_variable_start(fmi##N##_import_integer_variable_t* v) { return var(v)->i; } \
    fmi##N##_boolean_t fmi##N##_import_get_boolean_variable_start(fmi##N##_import_bool_variable_t* v) { return var(v)->b; } \
    const char* fmi##N##_import_get_string_variable_start(fmi##N##_import_string_variable_t* v) { return var(v)->s.c_str(); } \
    void fmi##N##_import_destroy_dllfmu(fmi##N##_import_t* i) { simple<int>(i, DESTROY_DLL); } \
    fmi##N##_status_t fmi##N##_import_get_real(fmi##N##_import_t* i, const fmi##N##_value_reference_t* v, size_t n, fmi##N##_real_t* x) { return static_cast<fmi##N##_status_t>(access(i, GET, REAL, v, n, x, nullptr)); } \
    fmi##N##_status_t fmi##N##_import_get_integer(fmi##N##_import_t* i, const fmi##N##_value_reference_t* v, size_t n, fmi##N##_integer_t* x) { return static_cast<fmi##N##_status_t>(access(i, GET, INTEGER, v, n, x, nullptr)); } \
    fmi##N##_status_t fmi##N##_import_get_boolean(fmi##N##_import_t* i, const fmi##N##_value_reference_t* v, size_t n, fmi##N##_boolean_t* x) { return static_cast<fmi##N##_status_t>(access(i, GET, BOOLEAN, v, n, x, nullptr)); } \
    fmi##N##_status_t fmi##N##_import_get_string(fmi##N##_import_t* i, const fmi##N##_value_reference_t* v, size_t n, fmi##N##_string_t* x) { return static_cast<fmi##N##_status_t>(access(i, GET, STRING, v, n, x, nullptr)); } \
    fmi##N##_status_t fmi##N##_import_set_real(fmi##N##_import_t* i, const fmi##N##_value_reference_t* v, size_t n, const fmi##N##_real_t* x) { return static_cast<fmi##N##_status_t>(access(i, SET, REAL, v, n, nullptr, x)); } \
    fmi##N##_status_t fmi##N##_import_set_integer(fmi##N##_import_t* i, const fmi##N##_value_reference_t* v, size_t n, const fmi##N##_integer_t* x) { return static_cast<fmi##N##_status_t>(access(i, SET, INTEGER, v, n, nullptr, x)); } \
    fmi##N##_status_t fmi##N##_import_set_boolean(fmi##N##_import_t* i, const fmi##N##_value_reference_t* v, size_t n, const fmi##N##_boolean_t* x) { return static_cast<fmi##N##_status_t>(access(i, SET, BOOLEAN, v, n, nullptr, x)); } \
    fmi##N##_status_t fmi##N##_import_set_string(fmi##N##_import_t* i, const fmi##N##_value_reference_t* v, size_t n, const fmi##N##_string_t* x) { return static_cast<fmi##N##_status_t>(access(i, SET, STRING, v, n, nullptr, x)); }
COMMON(1)
COMMON(2)

fmi1_import_t* fmi1_import_parse_xml(fmi_import_context_t* c, const char* dir) { return parse_xml<fmi1_import_t>(c, dir, 1); }
fmi2_import_t* fmi2_import_parse_xml(fmi_import_context_t* c, const char* dir, void*) { return parse_xml<fmi2_import_t>(c, dir, 2); }
fmi1_fmu_kind_enu_t fmi1_import_get_fmu_kind(fmi1_import_t* i) { return static_cast<fmi1_fmu_kind_enu_t>(i->model->kind); }
fmi2_fmu_kind_enu_t fmi2_import_get_fmu_kind(fmi2_import_t* i) { return static_cast<fmi2_fmu_kind_enu_t>(i->model->kind); }
fmi1_import_capabilities_t* fmi1_import_get_capabilities(fmi1_import_t* i) { return as<fmi1_import_capabilities_t>(i->model); }
int fmi1_import_get_canBeInstantiatedOnlyOncePerProcess(fmi1_import_capabilities_t* c) { return reinterpret_cast<const Model*>(c)->once; }
unsigned int fmi2_import_get_capability(fmi2_import_t* i, fmi2_capabilities_enu_t c) { return c == fmi2_cs_canBeInstantiatedOnlyOncePerProcess && i->model->once; }
fmi1_import_variable_list_t* fmi1_import_get_variable_list(fmi1_import_t* i) { dsim::NoAllocFaults na; return new fmi1_import_variable_list_t{i->model}; }
fmi2_import_variable_list_t* fmi2_import_get_variable_list(fmi2_import_t* i, int) { dsim::NoAllocFaults na; return new fmi2_import_variable_list_t{i->model}; }
fmi1_import_variable_t* fmi1_import_get_variable(fmi1_import_variable_list_t* l, unsigned int k) { return as<fmi1_import_variable_t>(&l->m->vars.at(k)); }
fmi2_import_variable_t* fmi2_import_get_variable(fmi2_import_variable_list_t* l, size_t k) { return as<fmi2_import_variable_t>(&l->m->vars.at(k)); }
jm_status_enu_t fmi1_import_create_dllfmu(fmi1_import_t* i, fmi1_callback_functions_t cb, int)
{
    i->cb1 = cb;
    return simple<jm_status_enu_t>(i, CREATE_DLL);
}
jm_status_enu_t fmi2_import_create_dllfmu(fmi2_import_t* i, fmi2_fmu_kind_enu_t, const fmi2_callback_functions_t* cb)
{
    i->cb2 = *cb;
    return simple<jm_status_enu_t>(i, CREATE_DLL);
}
jm_status_enu_t fmi1_import_instantiate_slave(fmi1_import_t* i, fmi1_string_t name, fmi1_string_t, fmi1_string_t, fmi1_real_t, fmi1_boolean_t, fmi1_boolean_t)
{
    Args a;
    a.name = name;
    return static_cast<jm_status_enu_t>(quiet_call(*i, INSTANTIATE, a));
}
jm_status_enu_t fmi2_import_instantiate(fmi2_import_t* i, fmi2_string_t name, fmi2_type_t, fmi2_string_t, fmi2_boolean_t)
{
    Args a;
    a.name = name;
    return static_cast<jm_status_enu_t>(quiet_call(*i, INSTANTIATE, a));
}
void fmi1_import_free_slave_instance(fmi1_import_t* i) { simple<int>(i, FREE_INSTANCE); }
void fmi2_import_free_instance(fmi2_import_t* i) { simple<int>(i, FREE_INSTANCE); }
fmi1_status_t fmi1_import_initialize_slave(fmi1_import_t* i, fmi1_real_t t, fmi1_boolean_t stopDefined, fmi1_real_t stop)
{
    Args a;
    a.t = t;
    a.stopDefined = stopDefined;
    a.stop = stop;
    return static_cast<fmi1_status_t>(quiet_call(*i, INITIALIZE, a));
}
fmi2_status_t fmi2_import_setup_experiment(fmi2_import_t* i, fmi2_boolean_t tolDefined, fmi2_real_t tol, fmi2_real_t start, fmi2_boolean_t stopDefined, fmi2_real_t stop)
{
    Args a;
    a.t = start;
    a.toleranceDefined = tolDefined;
    a.tolerance = tol;
    a.stopDefined = stopDefined;
    a.stop = stop;
    return static_cast<fmi2_status_t>(quiet_call(*i, SETUP, a));
}
fmi2_status_t fmi2_import_enter_initialization_mode(fmi2_import_t* i) { return simple<fmi2_status_t>(i, ENTER_INIT); }
fmi2_status_t fmi2_import_exit_initialization_mode(fmi2_import_t* i) { return simple<fmi2_status_t>(i, EXIT_INIT); }
fmi2_status_t fmi2_import_terminate(fmi2_import_t* i) { return simple<fmi2_status_t>(i, TERMINATE); }
fmi1_status_t fmi1_import_terminate_slave(fmi1_import_t* i) { return simple<fmi1_status_t>(i, TERMINATE); }
fmi1_status_t fmi1_import_do_step(fmi1_import_t* i, fmi1_real_t t, fmi1_real_t dt, fmi1_boolean_t)
{
    Args a;
    a.t = t;
    a.dt = dt;
    return static_cast<fmi1_status_t>(quiet_call(*i, STEP, a));
}
fmi2_status_t fmi2_import_do_step(fmi2_import_t* i, fmi2_real_t t, fmi2_real_t dt, fmi2_boolean_t)
{
    Args a;
    a.t = t;
    a.dt = dt;
    return static_cast<fmi2_status_t>(quiet_call(*i, STEP, a));
}
} // extern "C"
