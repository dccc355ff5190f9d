#!/bin/bash
# Renames the threading and allocation functions an object refers to, such that
# it uses those of the controlled runtime.
for f in pthread_mutex_{lock,trylock,unlock,init,destroy} pthread_rwlock_{wrlock,rdlock,trywrlock,tryrdlock,unlock,destroy} pthread_cond_{wait,signal,broadcast,destroy} pthread_once __cxa_guard_{acquire,release} malloc calloc realloc free _Znwm _Znam _ZnwmSt11align_val_t _ZnamSt11align_val_t _ZnwmRKSt9nothrow_t _ZnamRKSt9nothrow_t _ZdlPv _ZdaPv _ZdlPvm _ZdaPvm _ZdlPvSt11align_val_t _ZdlPvmSt11align_val_t _ZdaPvSt11align_val_t _ZdaPvmSt11align_val_t; do
  a+=(--redefine-sym "$f=rt_$f")
done
exec objcopy "${a[@]}" "$@"
