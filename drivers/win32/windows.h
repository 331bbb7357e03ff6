// a stand-in for the parts of the Windows API the library uses, on Linux
#pragma once
#include <stdint.h>
#include <pthread.h>
typedef int BOOL;
typedef unsigned char BOOLEAN;
struct SRWLOCK { volatile intptr_t n; };   // -1 exclusive, n > 0 shared holders
namespace srw
{
    inline pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER;
    inline pthread_cond_t c = PTHREAD_COND_INITIALIZER;
    struct scope { scope() { pthread_mutex_lock(&m); } ~scope() { pthread_mutex_unlock(&m); } };
    inline void broken(char const* what) { fprintf(stderr, "ASSERT srw lock %s\n", what); _exit(77); }
}
inline void InitializeSRWLock(SRWLOCK* q) { srw::scope s; q->n = 0; }
inline BOOLEAN TryAcquireSRWLockExclusive(SRWLOCK* q) { srw::scope s; if (q->n) return 0; q->n = -1; return 1; }
inline BOOLEAN TryAcquireSRWLockShared(SRWLOCK* q) { srw::scope s; if (q->n < 0) return 0; ++q->n; return 1; }
inline void AcquireSRWLockExclusive(SRWLOCK* q) { srw::scope s; while (q->n) pthread_cond_wait(&srw::c, &srw::m); q->n = -1; }
inline void AcquireSRWLockShared(SRWLOCK* q) { srw::scope s; while (q->n < 0) pthread_cond_wait(&srw::c, &srw::m); ++q->n; }
inline void ReleaseSRWLockExclusive(SRWLOCK* q) { srw::scope s; if (q->n != -1) srw::broken("released by nobody"); q->n = 0; pthread_cond_broadcast(&srw::c); }
inline void ReleaseSRWLockShared(SRWLOCK* q) { srw::scope s; if (q->n <= 0) srw::broken("shared release of nothing"); --q->n; pthread_cond_broadcast(&srw::c); }
