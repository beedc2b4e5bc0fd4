// LD_PRELOAD monitor: names asked of getenv between the markers.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
static int on;
char *getenv(const char *name) {
    static char *(*real)(const char *);
    if (!real) real = (char *(*)(const char *))dlsym(RTLD_NEXT, "getenv");
    if (!strcmp(name, "PALC_MONITOR_MARK_begin")) { on = 1; return 0; }
    if (!strcmp(name, "PALC_MONITOR_MARK_end")) {
        on = 0;
        const char *p = real("PALC_MONITOR_ENVLOG");
        int fd = p ? open(p, O_WRONLY | O_CREAT | O_APPEND, 0644) : -1;
        if (fd >= 0) { if (write(fd, "<end>\n", 6)) {} close(fd); }
        return 0;
    }
    if (on) {
        const char *p = real("PALC_MONITOR_ENVLOG");
        int fd = p ? open(p, O_WRONLY | O_CREAT | O_APPEND, 0644) : -1;
        if (fd >= 0) { if (write(fd, name, strlen(name)) && write(fd, "\n", 1)) {} close(fd); }
    }
    return real(name);
}
