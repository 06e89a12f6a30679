// A stand-in for the FMI Library: the part of its interface that libcosim uses. Implemented by fake_fmilib.hpp.
#ifndef DSIM_STUB_FMILIB_H
#define DSIM_STUB_FMILIB_H
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef const char* jm_string;
typedef enum { jm_log_level_nothing, jm_log_level_fatal, jm_log_level_error, jm_log_level_warning, jm_log_level_info, jm_log_level_verbose, jm_log_level_debug, jm_log_level_all } jm_log_level_enu_t;
typedef enum { jm_status_error = -1, jm_status_success = 0, jm_status_warning = 1 } jm_status_enu_t;
#define JM_MAX_ERROR_MESSAGE_SIZE 2000
typedef struct jm_callbacks jm_callbacks;
typedef void* jm_voidp;
typedef void (*jm_logger_f)(jm_callbacks* c, jm_string module, jm_log_level_enu_t log_level, jm_string message);
struct jm_callbacks
{
    jm_voidp (*malloc)(size_t);
    jm_voidp (*calloc)(size_t, size_t);
    jm_voidp (*realloc)(void*, size_t);
    void (*free)(void*);
    jm_logger_f logger;
    jm_log_level_enu_t log_level;
    jm_voidp context;
    char errMessageBuffer[JM_MAX_ERROR_MESSAGE_SIZE];
};
jm_string jm_get_last_error(jm_callbacks* cb);

typedef struct fmi_xml_context_t fmi_xml_context_t;
typedef fmi_xml_context_t fmi_import_context_t;
fmi_import_context_t* fmi_import_allocate_context(jm_callbacks*);
void fmi_import_free_context(fmi_import_context_t*);

// ---- FMI 1 ----
typedef void* fmi1_component_t;
typedef unsigned int fmi1_value_reference_t;
typedef double fmi1_real_t;
typedef int fmi1_integer_t;
typedef char fmi1_boolean_t;
typedef const char* fmi1_string_t;
#define fmi1_true 1
#define fmi1_false 0
typedef enum { fmi1_status_ok, fmi1_status_warning, fmi1_status_discard, fmi1_status_error, fmi1_status_fatal, fmi1_status_pending } fmi1_status_t;
typedef enum { fmi1_base_type_real, fmi1_base_type_int, fmi1_base_type_bool, fmi1_base_type_str, fmi1_base_type_enum } fmi1_base_type_enu_t;
typedef enum { fmi1_variability_enu_unknown = -1, fmi1_variability_enu_constant, fmi1_variability_enu_parameter, fmi1_variability_enu_discrete, fmi1_variability_enu_continuous } fmi1_variability_enu_t;
typedef enum { fmi1_causality_enu_unknown = -1, fmi1_causality_enu_input, fmi1_causality_enu_output, fmi1_causality_enu_internal, fmi1_causality_enu_none } fmi1_causality_enu_t;
typedef enum { fmi1_fmu_kind_enu_unknown = -1, fmi1_fmu_kind_enu_me, fmi1_fmu_kind_enu_cs_standalone, fmi1_fmu_kind_enu_cs_tool } fmi1_fmu_kind_enu_t;
typedef void (*fmi1_callback_logger_ft)(fmi1_component_t, fmi1_string_t, fmi1_status_t, fmi1_string_t, fmi1_string_t, ...);
typedef struct
{
    fmi1_callback_logger_ft logger;
    void* (*allocateMemory)(size_t, size_t);
    void (*freeMemory)(void*);
    void (*stepFinished)(fmi1_component_t, fmi1_status_t);
} fmi1_callback_functions_t;
typedef struct fmi1_import_t fmi1_import_t;
typedef struct fmi1_import_variable_t fmi1_import_variable_t;
typedef struct fmi1_import_real_variable_t fmi1_import_real_variable_t;
typedef struct fmi1_import_integer_variable_t fmi1_import_integer_variable_t;
typedef struct fmi1_import_bool_variable_t fmi1_import_bool_variable_t;
typedef struct fmi1_import_string_variable_t fmi1_import_string_variable_t;
typedef struct fmi1_import_variable_list_t fmi1_import_variable_list_t;
typedef struct fmi1_import_capabilities_t fmi1_import_capabilities_t;
fmi1_import_t* fmi1_import_parse_xml(fmi_import_context_t*, const char* dir);
void fmi1_import_free(fmi1_import_t*);
fmi1_fmu_kind_enu_t fmi1_import_get_fmu_kind(fmi1_import_t*);
const char* fmi1_import_get_model_name(fmi1_import_t*);
const char* fmi1_import_get_GUID(fmi1_import_t*);
const char* fmi1_import_get_description(fmi1_import_t*);
const char* fmi1_import_get_author(fmi1_import_t*);
const char* fmi1_import_get_model_version(fmi1_import_t*);
fmi1_import_capabilities_t* fmi1_import_get_capabilities(fmi1_import_t*);
int fmi1_import_get_canBeInstantiatedOnlyOncePerProcess(fmi1_import_capabilities_t*);
fmi1_import_variable_list_t* fmi1_import_get_variable_list(fmi1_import_t*);
void fmi1_import_free_variable_list(fmi1_import_variable_list_t*);
size_t fmi1_import_get_variable_list_size(fmi1_import_variable_list_t*);
fmi1_import_variable_t* fmi1_import_get_variable(fmi1_import_variable_list_t*, unsigned int);
const char* fmi1_import_get_variable_name(fmi1_import_variable_t*);
fmi1_value_reference_t fmi1_import_get_variable_vr(fmi1_import_variable_t*);
fmi1_base_type_enu_t fmi1_import_get_variable_base_type(fmi1_import_variable_t*);
fmi1_causality_enu_t fmi1_import_get_causality(fmi1_import_variable_t*);
fmi1_variability_enu_t fmi1_import_get_variability(fmi1_import_variable_t*);
int fmi1_import_get_variable_has_start(fmi1_import_variable_t*);
fmi1_import_real_variable_t* fmi1_import_get_variable_as_real(fmi1_import_variable_t*);
fmi1_import_integer_variable_t* fmi1_import_get_variable_as_integer(fmi1_import_variable_t*);
fmi1_import_bool_variable_t* fmi1_import_get_variable_as_boolean(fmi1_import_variable_t*);
fmi1_import_string_variable_t* fmi1_import_get_variable_as_string(fmi1_import_variable_t*);
fmi1_real_t fmi1_import_get_real_variable_start(fmi1_import_real_variable_t*);
fmi1_integer_t fmi1_import_get_integer_variable_start(fmi1_import_integer_variable_t*);
fmi1_boolean_t fmi1_import_get_boolean_variable_start(fmi1_import_bool_variable_t*);
const char* fmi1_import_get_string_variable_start(fmi1_import_string_variable_t*);
jm_status_enu_t fmi1_import_create_dllfmu(fmi1_import_t*, fmi1_callback_functions_t, int registerGlobally);
void fmi1_import_destroy_dllfmu(fmi1_import_t*);
jm_status_enu_t fmi1_import_instantiate_slave(fmi1_import_t*, fmi1_string_t name, fmi1_string_t location, fmi1_string_t mime, fmi1_real_t timeout, fmi1_boolean_t visible, fmi1_boolean_t interactive);
void fmi1_import_free_slave_instance(fmi1_import_t*);
fmi1_status_t fmi1_import_initialize_slave(fmi1_import_t*, fmi1_real_t tStart, fmi1_boolean_t stopDefined, fmi1_real_t tStop);
fmi1_status_t fmi1_import_terminate_slave(fmi1_import_t*);
fmi1_status_t fmi1_import_do_step(fmi1_import_t*, fmi1_real_t t, fmi1_real_t dt, fmi1_boolean_t newStep);
fmi1_status_t fmi1_import_get_real(fmi1_import_t*, const fmi1_value_reference_t*, size_t, fmi1_real_t*);
fmi1_status_t fmi1_import_get_integer(fmi1_import_t*, const fmi1_value_reference_t*, size_t, fmi1_integer_t*);
fmi1_status_t fmi1_import_get_boolean(fmi1_import_t*, const fmi1_value_reference_t*, size_t, fmi1_boolean_t*);
fmi1_status_t fmi1_import_get_string(fmi1_import_t*, const fmi1_value_reference_t*, size_t, fmi1_string_t*);
fmi1_status_t fmi1_import_set_real(fmi1_import_t*, const fmi1_value_reference_t*, size_t, const fmi1_real_t*);
fmi1_status_t fmi1_import_set_integer(fmi1_import_t*, const fmi1_value_reference_t*, size_t, const fmi1_integer_t*);
fmi1_status_t fmi1_import_set_boolean(fmi1_import_t*, const fmi1_value_reference_t*, size_t, const fmi1_boolean_t*);
fmi1_status_t fmi1_import_set_string(fmi1_import_t*, const fmi1_value_reference_t*, size_t, const fmi1_string_t*);

// ---- FMI 2 ----
typedef void* fmi2_component_t;
typedef void* fmi2_component_environment_t;
typedef unsigned int fmi2_value_reference_t;
typedef double fmi2_real_t;
typedef int fmi2_integer_t;
typedef int fmi2_boolean_t;
typedef const char* fmi2_string_t;
#define fmi2_true 1
#define fmi2_false 0
typedef enum { fmi2_status_ok, fmi2_status_warning, fmi2_status_discard, fmi2_status_error, fmi2_status_fatal, fmi2_status_pending } fmi2_status_t;
typedef enum { fmi2_base_type_real, fmi2_base_type_int, fmi2_base_type_bool, fmi2_base_type_str, fmi2_base_type_enum } fmi2_base_type_enu_t;
typedef enum { fmi2_variability_enu_constant, fmi2_variability_enu_fixed, fmi2_variability_enu_tunable, fmi2_variability_enu_discrete, fmi2_variability_enu_continuous, fmi2_variability_enu_unknown } fmi2_variability_enu_t;
typedef enum { fmi2_causality_enu_parameter, fmi2_causality_enu_calculated_parameter, fmi2_causality_enu_input, fmi2_causality_enu_output, fmi2_causality_enu_local, fmi2_causality_enu_independent, fmi2_causality_enu_unknown } fmi2_causality_enu_t;
typedef enum { fmi2_fmu_kind_unknown = 0, fmi2_fmu_kind_me = 1, fmi2_fmu_kind_cs = 2, fmi2_fmu_kind_me_and_cs = 3 } fmi2_fmu_kind_enu_t;
typedef enum { fmi2_modelexchange, fmi2_cosimulation } fmi2_type_t;
typedef enum { fmi2_me_canBeInstantiatedOnlyOncePerProcess, fmi2_cs_canBeInstantiatedOnlyOncePerProcess } fmi2_capabilities_enu_t;
typedef void (*fmi2_callback_logger_ft)(fmi2_component_environment_t, fmi2_string_t, fmi2_status_t, fmi2_string_t, fmi2_string_t, ...);
typedef struct
{
    fmi2_callback_logger_ft logger;
    void* (*allocateMemory)(size_t, size_t);
    void (*freeMemory)(void*);
    void (*stepFinished)(fmi2_component_environment_t, fmi2_status_t);
    fmi2_component_environment_t componentEnvironment;
} fmi2_callback_functions_t;
typedef struct fmi2_import_t fmi2_import_t;
typedef struct fmi2_import_variable_t fmi2_import_variable_t;
typedef struct fmi2_import_real_variable_t fmi2_import_real_variable_t;
typedef struct fmi2_import_integer_variable_t fmi2_import_integer_variable_t;
typedef struct fmi2_import_bool_variable_t fmi2_import_bool_variable_t;
typedef struct fmi2_import_string_variable_t fmi2_import_string_variable_t;
typedef struct fmi2_import_variable_list_t fmi2_import_variable_list_t;
fmi2_import_t* fmi2_import_parse_xml(fmi_import_context_t*, const char* dir, void* xmlCallbacks);
void fmi2_import_free(fmi2_import_t*);
fmi2_fmu_kind_enu_t fmi2_import_get_fmu_kind(fmi2_import_t*);
const char* fmi2_import_get_model_name(fmi2_import_t*);
const char* fmi2_import_get_GUID(fmi2_import_t*);
const char* fmi2_import_get_description(fmi2_import_t*);
const char* fmi2_import_get_author(fmi2_import_t*);
const char* fmi2_import_get_model_version(fmi2_import_t*);
unsigned int fmi2_import_get_capability(fmi2_import_t*, fmi2_capabilities_enu_t);
fmi2_import_variable_list_t* fmi2_import_get_variable_list(fmi2_import_t*, int sortOrder);
void fmi2_import_free_variable_list(fmi2_import_variable_list_t*);
size_t fmi2_import_get_variable_list_size(fmi2_import_variable_list_t*);
fmi2_import_variable_t* fmi2_import_get_variable(fmi2_import_variable_list_t*, size_t);
const char* fmi2_import_get_variable_name(fmi2_import_variable_t*);
fmi2_value_reference_t fmi2_import_get_variable_vr(fmi2_import_variable_t*);
fmi2_base_type_enu_t fmi2_import_get_variable_base_type(fmi2_import_variable_t*);
fmi2_causality_enu_t fmi2_import_get_causality(fmi2_import_variable_t*);
fmi2_variability_enu_t fmi2_import_get_variability(fmi2_import_variable_t*);
int fmi2_import_get_variable_has_start(fmi2_import_variable_t*);
fmi2_import_real_variable_t* fmi2_import_get_variable_as_real(fmi2_import_variable_t*);
fmi2_import_integer_variable_t* fmi2_import_get_variable_as_integer(fmi2_import_variable_t*);
fmi2_import_bool_variable_t* fmi2_import_get_variable_as_boolean(fmi2_import_variable_t*);
fmi2_import_string_variable_t* fmi2_import_get_variable_as_string(fmi2_import_variable_t*);
fmi2_real_t fmi2_import_get_real_variable_start(fmi2_import_real_variable_t*);
fmi2_integer_t fmi2_import_get_integer_variable_start(fmi2_import_integer_variable_t*);
fmi2_boolean_t fmi2_import_get_boolean_variable_start(fmi2_import_bool_variable_t*);
const char* fmi2_import_get_string_variable_start(fmi2_import_string_variable_t*);
jm_status_enu_t fmi2_import_create_dllfmu(fmi2_import_t*, fmi2_fmu_kind_enu_t, const fmi2_callback_functions_t*);
void fmi2_import_destroy_dllfmu(fmi2_import_t*);
jm_status_enu_t fmi2_import_instantiate(fmi2_import_t*, fmi2_string_t name, fmi2_type_t, fmi2_string_t location, fmi2_boolean_t visible);
void fmi2_import_free_instance(fmi2_import_t*);
fmi2_status_t fmi2_import_setup_experiment(fmi2_import_t*, fmi2_boolean_t tolDefined, fmi2_real_t tol, fmi2_real_t start, fmi2_boolean_t stopDefined, fmi2_real_t stop);
fmi2_status_t fmi2_import_enter_initialization_mode(fmi2_import_t*);
fmi2_status_t fmi2_import_exit_initialization_mode(fmi2_import_t*);
fmi2_status_t fmi2_import_terminate(fmi2_import_t*);
fmi2_status_t fmi2_import_do_step(fmi2_import_t*, fmi2_real_t t, fmi2_real_t dt, fmi2_boolean_t noSetPrior);
fmi2_status_t fmi2_import_get_real(fmi2_import_t*, const fmi2_value_reference_t*, size_t, fmi2_real_t*);
fmi2_status_t fmi2_import_get_integer(fmi2_import_t*, const fmi2_value_reference_t*, size_t, fmi2_integer_t*);
fmi2_status_t fmi2_import_get_boolean(fmi2_import_t*, const fmi2_value_reference_t*, size_t, fmi2_boolean_t*);
fmi2_status_t fmi2_import_get_string(fmi2_import_t*, const fmi2_value_reference_t*, size_t, fmi2_string_t*);
fmi2_status_t fmi2_import_set_real(fmi2_import_t*, const fmi2_value_reference_t*, size_t, const fmi2_real_t*);
fmi2_status_t fmi2_import_set_integer(fmi2_import_t*, const fmi2_value_reference_t*, size_t, const fmi2_integer_t*);
fmi2_status_t fmi2_import_set_boolean(fmi2_import_t*, const fmi2_value_reference_t*, size_t, const fmi2_boolean_t*);
fmi2_status_t fmi2_import_set_string(fmi2_import_t*, const fmi2_value_reference_t*, size_t, const fmi2_string_t*);
#ifdef __cplusplus
}
#endif
#endif
