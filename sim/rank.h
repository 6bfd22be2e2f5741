// Rank-side runtime: what a parked/released process image uses to talk to the
// simulator.  Everything that crosses a rank boundary goes through rpc().
#pragma once
#include "proto.h"
#include <cstddef>
namespace sim {
extern Shared *g_sh;     // mapped before the fork
extern int g_rank;       // -1 in the controller: every interposed call passes through
extern Mailbox *g_mb;
Rep rpc(const Req &q);   // hands control to the controller and waits for it back
void rank_attach(Shared *sh, int rank);
void rank_comm_init();
void stage(int s);       // tell the simulator which stage of the workload runs
void out(int tag, int64_t idx, double v);
extern char g_scratch[256];     // only paths below this are simulated disk
extern bool g_mute;                  // results of repetitions are not reported
int64_t live_comms(), live_requests();   // handles a rank holds
extern bool g_io_on;
extern int64_t g_coll_calls, g_p2p_calls;
} // namespace sim
