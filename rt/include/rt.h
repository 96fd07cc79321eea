// controls of the runtime models
#pragma once
#include <stdint.h>
int rt_spawn(void (*fn)(void*), void* arg);
void rt_join(int t);
bool rt_done(int t);
bool rt_any_enabled();
bool rt_blocked(int t);
void rt_yield();
// rt_idle_budget: timed waits that end because nothing else can happen
extern int rt_preempt_budget, rt_idle_budget, rt_timeout_budget, rt_spurious_budget;
extern int64_t rt_clock_ns, rt_clock_step_ns;
extern int64_t (*rt_clock_hook)();
extern void (*rt_sleep_hook)(int64_t ns);
// timed waits that end because nothing else can happen end in the order of their deadlines
extern bool rt_earliest_first;
// scheduling choices when the running thread blocks; when they are used up the threads take turns
extern int rt_sched_budget;
// used by the models: wait on a channel (until < 0: for ever); false when timed out
bool rt_wait(const void* chan, int64_t until);
void rt_notify(const void* chan);
