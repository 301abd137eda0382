/* CBMC only: the logging back end. Log messages have no effect; a fatal error ends the path,
 * and is a violation unless the harness has said that refusing is allowed here. */
#include <stdarg.h>
#include "vf.h"
#include "virg/nexus/nx_log.h"
int vf_fatal_allowed = 0;
int vf_fatal_seen = 0;
void nx_log_formatted(enum NXLogLevel l, const char *f, int n, const char *tag, const char *msg, ...) { }
void nx_log_fatal(const char *f, int n, const char *tag, const char *msg, ...)
{
        __CPROVER_assert(vf_fatal_allowed, "VF: fatal error raised although the operation must succeed");
        vf_fatal_seen = 1;
        __CPROVER_assume(0);
}
void nx_log_verbosity(enum NXLogVerbosity v) { }
void nx_log_fatal_func(NXLogFatalFuncP f) { }
