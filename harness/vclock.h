#pragma once
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
extern volatile int vc_on;          // virtual monotonic clock for the main thread
extern int64_t vc_t;                // current virtual time (ns)
extern int64_t vc_tick;             // ns added per reading
extern uint64_t vc_budget;          // scheduler readings allowed without progress (0: unlimited)
extern uint64_t vc_reads;
extern void (*vc_hang)(void);
extern uint64_t vc_sleeps, vc_polls;
extern int vc_pollreal_ms;          // real ms an idle poll may wait for other threads/processes
extern int (*vc_epoll_inject)(int *maxevents); // may lower maxevents; negative: interrupted
void vc_progress(void);
int64_t vc_now(void);
int64_t real_now(void);
#ifdef __cplusplus
}
#endif
