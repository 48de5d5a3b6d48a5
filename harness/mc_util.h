// Glue between the case runner and the controlled scheduler.
#pragma once
#include "verif.h"
#include "mc_sched.h"

// Explores every schedule of body. body is called at the start of each execution (as thread 0), after() when it is over
// and no violation happened. A failing schedule is reported with its choice path.
template<typename Body, typename After>
void explore_case(verif::Run& r, int bound, Body&& body, After&& after, uint64_t max_execs = 3000000, bool delay = false)
{
    static mc::Sched* sp = nullptr;
    if (!sp)
        sp = new mc::Sched();
    mc::Sched& s = *sp;
    s.bound = bound;
    s.delay = delay;
    std::string msg;
    uint64_t p0 = s.total_points;
    uint64_t n = mc::explore(
        s, body,
        [&](const std::string& err) {
            r.tick();
            std::string m = err;
            if (m.empty())
            {
                try
                {
                    after();
                }
                catch (const verif::Fail& f)
                {
                    m = f.m;
                }
            }
            ++r.validated;
            if (m.empty())
                return true;
            msg = m + " [schedule " + s.path_string() + "]";
            return false;
        },
        max_execs);
    r.transitions += s.total_points - p0;
    r.count("schedules", n);
    if (n >= max_execs)
        r.count("cut", 1);
    if (!msg.empty())
        throw verif::Fail(msg);
}
