#pragma once
#include <stddef.h>
/* internal interface between rt.c and rt_glib.c (also usable by harness-local wrappers) */
void rt_glib_enter (const char *what, void *pc);
void rt_glib_leave (void);
int  rt_active (void);
void rt_tag (int delta, void *pc);
void rt_access (const void *p, size_t n, int write, void *pc);
void rt_atomic_op (void *p, const char *what, void *pc);
void rt_acquire (void *obj);
void rt_release (void *obj);
void rt_hash (void *obj, int op, int write);
void rt_stack_switch (void *from, void *to);
void rt_warmup (void);
