/* Prototypes of the system function models (a unit lists the ones it models with //@sys) */
#ifndef VERIF_SYS_H
#define VERIF_SYS_H
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <fcntl.h>
#include <time.h>
#include <utime.h>
#include <stdlib.h>
int verif_sys_open(const char *path, int flags, ...);
ssize_t verif_sys_write(int fd, const void *buf, size_t size);
ssize_t verif_sys_read(int fd, void *buf, size_t size);
int verif_sys_fsync(int fd);
int verif_sys_close(int fd);
int verif_sys_rename(const char *from, const char *to);
int verif_sys_utime(const char *path, const struct utimbuf *t);
int verif_sys_chown(const char *path, uid_t u, gid_t g);
off_t verif_sys_lseek(int fd, off_t o, int w);
int verif_sys_mkdir(const char *path, mode_t mode);
int verif_sys_unlink(const char *path);
int verif_sys_stat(const char *path, struct stat *st);
int verif_sys_fstat(int fd, struct stat *st);
int verif_sys_kill(pid_t pid, int sig);
int verif_sys_flock(int fd, int op);
pid_t verif_sys_getpid(void);
int verif_sys_ftruncate(int fd, off_t size);
int verif_sys_utimes(const char *path, const struct timeval *t);
int verif_sys_gettimeofday(struct timeval *tv, void *tz);
time_t verif_sys_time(time_t *t);
long verif_sys_strtol(const char *s, char **end, int base);
long long verif_sys_strtoll(const char *s, char **end, int base);
unsigned long long verif_sys_strtoull(const char *s, char **end, int base);
time_t verif_sys_mktime(struct tm *t);
unsigned long verif_sys_strtoul(const char *s, char **end, int base);
#endif
