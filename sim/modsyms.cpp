// The loadable modules are linked in (each with its own private symbols, as
// separate shared objects would have) and found through dlopen/dlsym stubs.
#include "sim.h"
struct ModSym { const char *lib, *sym; void *fn; };
extern "C" int info_module_diag(void *);
extern "C" int info_module_gif(void *);
extern "C" int info_module_lua(void *);
extern ModSym mod_syms[];
ModSym mod_syms[] = {
    {"mod_diag", "info_module_diag", (void *) info_module_diag},
    {"mod_gif", "info_module_gif", (void *) info_module_gif},
    {"mod_lua", "info_module_lua", (void *) info_module_lua},
    {nullptr, nullptr, nullptr},
};
extern "C" const char *__asan_default_options() {
    return "detect_leaks=0:strict_memcmp=0:abort_on_error=0:exitcode=99:malloc_fill_byte=190:max_malloc_fill_size=1048576:max_free_fill_size=0:"
           "detect_stack_use_after_return=0:handle_segv=1:handle_abort=1:symbolize=1:allocator_may_return_null=1:detect_odr_violation=0:quarantine_size_mb=16:print_summary=0";
}
