// Runs a call and tells whether an assertion of the library stopped it.
#ifndef PBT_TRAP_H
#define PBT_TRAP_H
#include "pbt.h"
#include <csetjmp>
#include <csignal>
#include <fcntl.h>
#include <unistd.h>
#if defined(__SANITIZE_ADDRESS__) || (defined(__has_feature) && __has_feature(address_sanitizer))
extern "C" void __sanitizer_set_report_fd(void*);
#define TRAP_ASAN 1
#endif

namespace pbt
{
inline sigjmp_buf& trap_buf() { static sigjmp_buf b; return b; }
inline volatile sig_atomic_t& trap_on() { static volatile sig_atomic_t v = 0; return v; }
inline void trap_handler(int s)
{
    if (trap_on()) { trap_on() = 0; siglongjmp(trap_buf(), 1); }
    signal(s, SIG_DFL); raise(s);
}

//! true if the call was stopped by an assertion (abort), false if it returned.
//! Everything the call allocated before it was stopped is lost.
template <class F> bool stopped(F&& f)
{
    static int devnull = -1, err = -1;
    if (devnull < 0)
    {
        devnull = open("/dev/null", O_WRONLY | O_CLOEXEC); err = fcntl(2, F_DUPFD_CLOEXEC, 10);
#ifdef TRAP_ASAN
        __sanitizer_set_report_fd((void*)(intptr_t)err); // faults inside the call are still reported
#endif
        struct sigaction a; std::memset(&a, 0, sizeof a); a.sa_handler = trap_handler; a.sa_flags = SA_NODEFER;
        sigaction(SIGABRT, &a, nullptr);
    }
    dup2(devnull, 2);
    volatile bool hit = false;
    if (sigsetjmp(trap_buf(), 1) == 0) { trap_on() = 1; f(); trap_on() = 0; }
    else hit = true;
    dup2(err, 2);
    return hit;
}
} // namespace pbt
#endif
