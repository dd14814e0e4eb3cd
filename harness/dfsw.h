// The tracked calls, declared with the DFSan wrapper ABI (arguments, one label
// per fixed argument, variadic labels, result label, variadic arguments).
#pragma once
#include <stdint.h>
#include <stdio.h>
#include <sys/socket.h>
#include <sys/types.h>
typedef uint32_t lab;
extern "C" {
void __taint_start();
void __polytracker_taint_argv(int, char **);
uint16_t __polytracker_log_func_entry(char *, uint16_t);
void __polytracker_log_func_exit(uint16_t);
lab __polytracker_union_table(const lab &, const lab &);
void __polytracker_log_conditional_branch(lab);
void __dfsw___polytracker_log_conditional_branch(uint64_t, lab);
uint64_t __dfsw___polytracker_log_tainted_control_flow(uint64_t, uint32_t, lab, lab, lab *);
void __polytracker_enter_function(uint32_t);
void __polytracker_leave_function(uint32_t);

int __dfsw_open(const char *, int, lab, lab, lab *, lab *, ...);
int __dfsw_open64(const char *, int, lab, lab, lab *, lab *, ...);
int __dfsw_openat(int, const char *, int, lab, lab, lab, lab *, lab *, ...);
FILE *__dfsw_fopen(const char *, const char *, lab, lab, lab *);
FILE *__dfsw_fopen64(const char *, const char *, lab, lab, lab *);
int __dfsw_close(int, lab, lab *);
int __dfsw_fclose(FILE *, lab, lab *);
ssize_t __dfsw_read(int, void *, size_t, lab, lab, lab, lab *);
ssize_t __dfsw_pread(int, void *, size_t, off_t, lab, lab, lab, lab, lab *);
ssize_t __dfsw_pread64(int, void *, size_t, off_t, lab, lab, lab, lab, lab *);
size_t __dfsw_fread(void *, size_t, size_t, FILE *, lab, lab, lab, lab, lab *);
size_t __dfsw_fread_unlocked(void *, size_t, size_t, FILE *, lab, lab, lab, lab, lab *);
int __dfsw_fgetc(FILE *, lab, lab *);
int __dfsw_fgetc_unlocked(FILE *, lab, lab *);
int __dfsw__IO_getc(FILE *, lab, lab *);
int __dfsw_getc(FILE *, lab, lab *);
int __dfsw_getc_unlocked(FILE *, lab, lab *);
int __dfsw_getchar(lab *);
int __dfsw_getchar_unlocked(lab *);
char *__dfsw_fgets(char *, int, FILE *, lab, lab, lab, lab *);
ssize_t __dfsw_getdelim(char **, size_t *, int, FILE *, lab, lab, lab, lab, lab *);
ssize_t __dfsw___getdelim(char **, size_t *, int, FILE *, lab, lab, lab, lab, lab *);
void *__dfsw_mmap(void *, size_t, int, int, int, off_t, lab, lab, lab, lab, lab, lab, lab *);
int __dfsw_munmap(void *, size_t, lab, lab, lab *);
void __dfsw_exit(int, lab);
void __dfsw___assert_fail(const char *, const char *, unsigned, const char *, lab, lab, lab, lab);
int __dfsw_accept(int, struct sockaddr *, socklen_t *, lab, lab, lab, lab *);
int __dfsw_accept4(int, struct sockaddr *, socklen_t *, int, lab, lab, lab, lab, lab *);
int __dfsw_connect(int, const struct sockaddr *, socklen_t, lab, lab, lab, lab *);
ssize_t __dfsw_recv(int, void *, size_t, int, lab, lab, lab, lab, lab *);
ssize_t __dfsw_recvfrom(int, void *, size_t, int, struct sockaddr *, socklen_t *, lab, lab, lab, lab, lab, lab, lab *);
ssize_t __dfsw_write(int, void *, size_t, lab, lab, lab, lab *);
size_t __dfsw_fwrite(void *, size_t, size_t, FILE *, lab, lab, lab, lab, lab *);
int __dfsw_putc(int, FILE *, lab, lab, lab *);
int __dfsw_fputc(int, FILE *, lab, lab, lab *);
ssize_t __dfsw_send(int, void *, size_t, int, lab, lab, lab, lab, lab *);
void *__dfsw_malloc(size_t, lab, lab *);
void *__dfsw_realloc(void *, size_t, lab, lab, lab *);
void *__dfsw_calloc(size_t, size_t, lab, lab, lab *);
void __dfsw_free(void *, lab);
int __dfsw_pthread_cond_broadcast(pthread_cond_t *, lab, lab *);

void dfsan_set_label(lab, void *, size_t);
void dfsan_add_label(lab, void *, size_t);
lab dfsan_read_label(const void *, size_t);
lab __dfsan_union(lab, lab);
lab dfsan_union(lab, lab);
}
