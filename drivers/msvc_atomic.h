// atomic_msvc_x86.h over stand-ins for the MSVC intrinsics (its `long` has 32 bits)
#pragma once
#include <emmintrin.h>
#include "ce/ce.h"
using msvc_int64 = long long;
#define __int8 char
#define __int16 short
#define __int32 int
#define __int64 msvc_int64
#define long int
#define _MSC_VER 1930
#include "ce/atomic_msvc_x86.h"
#undef _MSC_VER
#undef long
namespace ce
{
    namespace detail
    {
#define KIT_MSVC(N, T) \
        extern "C" inline T _InterlockedExchange##N(T volatile* p, T v) { return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
        extern "C" inline T _InterlockedExchangeAdd##N(T volatile* p, T v) { return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
        extern "C" inline T _InterlockedCompareExchange##N(T volatile* p, T v, T c) { __atomic_compare_exchange_n(p, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
        KIT_MSVC(8, char)
        KIT_MSVC(16, short)
        KIT_MSVC(, int)
        KIT_MSVC(64, msvc_int64)
        extern "C" inline void* _InterlockedExchangePointer(void* volatile* p, void* v) { return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); }
        extern "C" inline void* _InterlockedCompareExchangePointer(void* volatile* p, void* v, void* c) { __atomic_compare_exchange_n(p, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
        extern "C" inline void _ReadWriteBarrier() { __asm__ volatile("" ::: "memory"); }
    }
}
