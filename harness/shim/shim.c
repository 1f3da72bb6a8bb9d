/* Preloaded into md-recover: makes files named dev-* look like block devices
 * that can only be read, and lets some of them fail. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/sysmacros.h>
#include <unistd.h>

static int base_name(const char *path, char *out, size_t size)
{
	char real[PATH_MAX];
	if (!realpath(path, real) && strlen(path) < sizeof real)
		strcpy(real, path);
	const char *slash = strrchr(real, '/');
	snprintf(out, size, "%s", slash ? slash + 1 : real);
	return strncmp(out + (out[0] == '-'), "dev-", 4) == 0;
}


static int fd_name(int fd, char *out, size_t size)
{
	char link[64], path[PATH_MAX];
	snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
	ssize_t n = readlink(link, path, sizeof path - 1);
	if (n < 0)
		return 0;
	path[n] = 0;
	const char *slash = strrchr(path, '/');
	snprintf(out, size, "%s", slash ? slash + 1 : path);
	return strncmp(out + (out[0] == '-'), "dev-", 4) == 0;
}

static int denied(const char *path, int flags)
{
	char name[NAME_MAX + 1];
	if (!base_name(path, name, sizeof name))
		return 0;
	if (strstr(name, "denied"))
		return EACCES;
	if (strstr(name, "gone"))
		return ENXIO;
	if ((flags & O_ACCMODE) != O_RDONLY || (flags & O_TRUNC))
		return EROFS;
	return 0;
}

#define OPEN(NAME, SYMBOL_ARGS, CALL_ARGS, PATH)                               \
	int NAME SYMBOL_ARGS                                                   \
	{                                                                      \
		mode_t mode = 0;                                               \
		if (flags & (O_CREAT | O_TMPFILE)) {                           \
			va_list args;                                          \
			va_start(args, flags);                                 \
			mode = va_arg(args, mode_t);                           \
			va_end(args);                                          \
		}                                                              \
		int e = denied(PATH, flags);                                   \
		if (e) {                                                       \
			errno = e;                                             \
			return -1;                                             \
		}                                                              \
		return syscall CALL_ARGS;                                      \
	}

OPEN(open, (const char *path, int flags, ...), (SYS_openat, AT_FDCWD, path, flags, mode), path)
OPEN(open64, (const char *path, int flags, ...), (SYS_openat, AT_FDCWD, path, flags, mode), path)
OPEN(openat, (int dir, const char *path, int flags, ...), (SYS_openat, dir, path, flags, mode), path)
OPEN(openat64, (int dir, const char *path, int flags, ...), (SYS_openat, dir, path, flags, mode), path)

#define BLKROGET 0x125e
#define BLKGETSIZE 0x1260
#define BLKSSZGET 0x1268
#define BLKIOMIN 0x1278
#define BLKIOOPT 0x1279
#define BLKALIGNOFF 0x127a
#define BLKPBSZGET 0x127b
#define BLKBSZGET 0x80081270
#define BLKGETSIZE64 0x80081272

int ioctl(int fd, unsigned long request, ...)
{
	va_list args;
	va_start(args, request);
	void *arg = va_arg(args, void *);
	va_end(args);
	char name[NAME_MAX + 1];
	if (!fd_name(fd, name, sizeof name))
		return syscall(SYS_ioctl, fd, request, arg);
	struct stat st;
	if (syscall(SYS_fstat, fd, &st))
		return -1;
	switch ((uint32_t)request) {
	case BLKGETSIZE64:
		if (strstr(name, "nosize"))
			break;
		*(uint64_t *)arg = st.st_size;
		return 0;
	case BLKGETSIZE:
		if (strstr(name, "nosize"))
			break;
		*(unsigned long *)arg = st.st_size / 512;
		return 0;
	case BLKPBSZGET:
		if (strstr(name, "noblock"))
			break;
		*(uint32_t *)arg = strstr(name, "4k") ? 4096 : 512;
		return 0;
	case BLKSSZGET:
	case BLKIOMIN:
		*(int *)arg = 512;
		return 0;
	case BLKBSZGET:
		*(int *)arg = 4096;
		return 0;
	case BLKROGET:
		*(int *)arg = 1;
		return 0;
	case BLKIOOPT:
	case BLKALIGNOFF:
		*(int *)arg = 0;
		return 0;
	default:
		errno = ENOTTY;
		return -1;
	}
	errno = EIO;
	return -1;
}

static void disguise(struct stat *st)
{
	st->st_mode = (st->st_mode & ~S_IFMT) | S_IFBLK;
	st->st_size = 0;
	st->st_blocks = 0;
	st->st_rdev = makedev(7, 0);
}

static int fstat_(int fd, struct stat *st)
{
	char name[NAME_MAX + 1];
	int r = syscall(SYS_fstat, fd, st);
	if (r == 0 && fd_name(fd, name, sizeof name))
		disguise(st);
	return r;
}

static int stat_(const char *path, struct stat *st)
{
	char name[NAME_MAX + 1];
	int r = syscall(SYS_newfstatat, AT_FDCWD, path, st, 0);
	if (r == 0 && base_name(path, name, sizeof name))
		disguise(st);
	return r;
}

int fstat(int fd, struct stat *st) { return fstat_(fd, st); }
int fstat64(int fd, struct stat64 *st) { return fstat_(fd, (struct stat *)st); }
int stat(const char *path, struct stat *st) { return stat_(path, st); }
int stat64(const char *path, struct stat64 *st) { return stat_(path, (struct stat *)st); }

int statx(int dir, const char *restrict path, int flags, unsigned mask, struct statx *restrict st)
{
	char name[NAME_MAX + 1];
	int r = syscall(SYS_statx, dir, path, flags, mask, st);
	if (r == 0 && (path && *path ? base_name(path, name, sizeof name) : fd_name(dir, name, sizeof name)) &&
	    S_ISREG(st->stx_mode)) {
		st->stx_mode = (st->stx_mode & ~S_IFMT) | S_IFBLK;
		st->stx_size = 0;
		st->stx_blocks = 0;
		st->stx_rdev_major = 7;
	}
	return r;
}
