/* Monitors and faults on the C library's file functions (linker --wrap). */
#ifndef WRAPIO_H
#define WRAPIO_H
#include <stdint.h>
#include <stdio.h>
#ifdef __cplusplus
extern "C" {
#endif
enum { IO_FOPEN, IO_FCLOSE, IO_FREAD, IO_FWRITE, IO_FSEEK, IO_FTELL, IO_FPUTS,
	IO_OPENDIR, IO_REMOVE, IO_MKDIR, IO_NCLASS };
extern int io_mkdir_errno; /* of a directory that could not be made, or 0 */
void io_begin(void);                    /* start monitoring; forgets state */
void io_end(void);
/* the n-th call (1 based) of the class from now fails; sticky: and later */
void io_fail_at(int cls, uint64_t n, int sticky);
/* the n-th call of any class fails */
void io_fail_any_at(uint64_t n, int sticky);
void io_fail_mask(uint32_t mask);       /* classes that io_fail_any counts */
int io_failed_of(int cls);              /* of the class since io_begin */
int io_failed(void);                    /* failures injected */
int io_failed_class(void);              /* class of the first one */
uint64_t io_calls(int cls);
uint64_t io_calls_any(void);
int io_open_files(void);                /* FILEs opened and not yet closed */
int io_open_dirs(void);
void io_limit_open(int n);              /* fopen fails when n files are open */
const char *io_class_name(int cls);
/* chunk the library's reads and writes see as successful at most this many
 * removals recorded */
int io_removed_count(void);
const char *io_removed(int i);
void io_coarse_clock(unsigned n);       /* changes every n-th time it is read */
extern void (*io_on_fopen)(const char *path, const char *mode);
#ifdef __cplusplus
}
#endif
#endif
