// Declaration-level model of the paraconf C API.
#pragma once
#ifdef __cplusplus
extern "C" {
#endif
#ifndef HV_PARACONF_T
#define HV_PARACONF_T
typedef struct PC_tree_s { int status; void* document; void* node; } PC_tree_t;
#endif
typedef enum PC_status_e { PC_OK = 0 } PC_status_t;
PC_tree_t PC_parse_path(char const* path);
PC_tree_t PC_parse_string(char const* document);
PC_status_t PC_tree_destroy(PC_tree_t* tree);
#ifdef __cplusplus
}
#endif
