// Declaration-level model of the PDI C API.
#pragma once
#ifdef __cplusplus
extern "C" {
#endif
typedef enum PDI_inout_e { PDI_NONE = 0, PDI_IN = 1, PDI_OUT = 2, PDI_INOUT = 3 } PDI_inout_t;
typedef enum PDI_status_e { PDI_OK = 0, PDI_UNAVAILABLE, PDI_ERR_CONFIG, PDI_ERR_VALUE, PDI_ERR_PLUGIN, PDI_ERR_IMPL, PDI_ERR_SYSTEM, PDI_ERR_STATE, PDI_ERR_RIGHT, PDI_ERR_TYPE } PDI_status_t;
#ifndef HV_PARACONF_T
#define HV_PARACONF_T
typedef struct PC_tree_s { int status; void* document; void* node; } PC_tree_t;
#endif
PDI_status_t PDI_init(PC_tree_t conf);
PDI_status_t PDI_finalize(void);
PDI_status_t PDI_event(char const* event);
PDI_status_t PDI_share(char const* name, void* data, PDI_inout_t access);
PDI_status_t PDI_access(char const* name, void** buffer, PDI_inout_t inout);
PDI_status_t PDI_release(char const* name);
PDI_status_t PDI_reclaim(char const* name);
PDI_status_t PDI_expose(char const* name, void* data, PDI_inout_t access);
PDI_status_t PDI_multi_expose(char const* event_name, char const* name, void* data, PDI_inout_t access, ...);
#ifdef __cplusplus
}
#endif
