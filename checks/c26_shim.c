/* Preloaded by checks/c26.py: names every environment variable a tool asks for
 * (to the file $SHIM_LOG), and lets the check choose what else could leak into
 * a result: the time, the process and user number, and whether a file is a
 * terminal. Only calls from outside the C library come here. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

extern char **environ;

static char *find(const char *name)
{
    size_t n = strlen(name);
    char **e;
    for (e = environ; e && *e; e++)
	if (strncmp(*e, name, n) == 0 && (*e)[n] == '=')
	    return *e + n + 1;
    return NULL;
}

static long setting(const char *name, long otherwise)
{
    char *s = find(name);
    return s ? atol(s) : otherwise;
}

char *getenv(const char *name)
{
    char *log = find("SHIM_LOG");
    if (log && strncmp(name, "SHIM_", 5) != 0)
    {
	int fd = open(log, O_WRONLY | O_CREAT | O_APPEND, 0600);
	if (fd >= 0)
	{
	    if (write(fd, name, strlen(name)) < 0 || write(fd, "\n", 1) < 0)
		_exit(97);
	    close(fd);
	}
    }
    return find(name);
}

char *secure_getenv(const char *name)
{
    return getenv(name);
}

time_t time(time_t *t)
{
    time_t v = setting("SHIM_TIME", 1);
    if (t)
	*t = v;
    return v;
}

int gettimeofday(struct timeval *tv, void *tz)
{
    tv->tv_sec = setting("SHIM_TIME", 1);
    tv->tv_usec = tv->tv_sec % 1000000;
    return 0;
}

int clock_gettime(clockid_t c, struct timespec *ts)
{
    ts->tv_sec = setting("SHIM_TIME", 1);
    ts->tv_nsec = ts->tv_sec % 1000000000;
    return 0;
}

clock_t clock(void)
{
    return setting("SHIM_TIME", 1);
}

pid_t getpid(void)
{
    return setting("SHIM_ID", 4321);
}

uid_t getuid(void)
{
    return setting("SHIM_ID", 4321);
}

uid_t geteuid(void)
{
    return setting("SHIM_ID", 4321);
}

int isatty(int fd)
{
    return setting("SHIM_TTY", 0);
}
