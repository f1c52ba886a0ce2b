// Field offsets, computed by the compiler; -1 when there is no such field.
#pragma once
#include <cstddef>

#define OFF(id, T, f)                                              \
    template <class X>                                             \
    constexpr long off_fn_##id()                                   \
    {                                                              \
        if constexpr (requires(X &x) { x.f; })                     \
            return (long)__builtin_offsetof(X, f);                 \
        else                                                       \
            return -1;                                             \
    }                                                              \
    extern "C" const long off_##id;                                \
    extern "C" const long off_##id = off_fn_##id<T>();

#define SIZE(id, T)                  \
    extern "C" const long size_##id; \
    extern "C" const long size_##id = (long)sizeof(T);

#define VAL(id, v)                  \
    extern "C" const long val_##id; \
    extern "C" const long val_##id = (long)(v);
