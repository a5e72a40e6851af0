// Stand-in for the native engine: every entry point exists and does nothing, except that a context is its own data.
// Only used so that packages importing the Go wrapper link; never executed by a check.
long wasmer_export_func_params(void) { return 0; }
long wasmer_export_func_params_arity(void) { return 0; }
long wasmer_export_func_returns_arity(void) { return 0; }
long wasmer_export_kind(void) { return 0; }
long wasmer_export_name(void) { return 0; }
long wasmer_export_to_func(void) { return 0; }
long wasmer_export_to_memory(void) { return 0; }
long wasmer_exports_destroy(void) { return 0; }
long wasmer_exports_get(void) { return 0; }
long wasmer_exports_len(void) { return 0; }
long wasmer_import_func_destroy(void) { return 0; }
long wasmer_import_func_new(void) { return 0; }
long wasmer_import_object_cache_from_imports(void) { return 1; }
long wasmer_instance_cache(void) { return 0; }
long wasmer_instance_call(void) { return 0; }
void *wasmer_instance_context_data_get(void *ctx) { return ctx; }
long wasmer_instance_context_data_set(void) { return 0; }
long wasmer_instance_context_get(void) { return 0; }
void *wasmer_instance_context_memory(void *ctx, unsigned n) { return ctx; }
long wasmer_instance_destroy(void) { return 0; }
long wasmer_instance_exports(void) { return 0; }
long wasmer_instance_from_cache(void) { return 0; }
long wasmer_instance_get_points_used(void) { return 0; }
long wasmer_instance_get_runtime_breakpoint_value(void) { return 0; }
long wasmer_instance_is_function_imported(void) { return 0; }
long wasmer_instance_set_points_limit(void) { return 0; }
long wasmer_instance_set_points_used(void) { return 0; }
long wasmer_instance_set_runtime_breakpoint_value(void) { return 0; }
long wasmer_instantiate_with_options(void) { return 0; }
long wasmer_last_error_length(void) { return 0; }
long wasmer_last_error_message(void) { return 0; }
long wasmer_memory_data(void) { return 0; }
long wasmer_memory_data_length(void) { return 0; }
long wasmer_memory_destroy(void) { return 0; }
long wasmer_memory_grow(void) { return 0; }
long wasmer_set_opcode_costs(void) { return 0; }
