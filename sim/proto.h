// Shared-memory protocol between the simulator (controller) and the rank
// images it parks and releases one at a time.
#pragma once
#include <atomic>
#include <cstddef>
#include <cstdint>

namespace sim {

constexpr int MAXRANKS = 16;
constexpr size_t MB_DATA = size_t(6) << 20;   // mailbox payload area per rank
constexpr size_t OUT_MAX = size_t(1) << 19;   // result records per rank

enum Op : int32_t {
  OP_NONE = 0,
  OP_HELLO,      // rank reached its first instruction
  OP_EXIT,       // rank finished normally (a=exit status)
  OP_ABORT,      // MPI_Abort(a)
  OP_SEND,       // a=dst(world) b=tag flags: SYNC,BLOCK ; payload
  OP_RECV,       // a=src(world or -1 any) b=tag (or -1 any)
  OP_START,      // start persistent requests: ids are listed in payload
  OP_WAIT,       // ids in payload, a=mode
  OP_PROBE,      // a=src b=tag, flags BLOCK for MPI_Probe
  OP_COLL,       // a=kind b=root, payload
  OP_FREE,       // request free (id in a)
  OP_IO,         // file-system event: a=IoKind b=size c=scope
  OP_ALLOC,      // allocation failure armed point reached
  OP_YIELD,      // explicit scheduling point / stage marker (a=stage)
  OP_STAGE       // enter stage a (no scheduling)
};
enum : int32_t { F_BLOCK = 1, F_SYNC = 2, F_PERSIST = 4 };
enum WaitMode : int32_t { W_ALL = 0, W_ANY, W_SOME, W_TESTALL, W_TESTANY, W_TESTSOME };
enum CollKind : int32_t {
  C_BARRIER = 1, C_BCAST, C_REDUCE, C_ALLREDUCE, C_SCAN, C_EXSCAN, C_REDSCAT,
  C_GATHER, C_ALLGATHER, C_SCATTER, C_ALLTOALL, C_SPLIT, C_DUP, C_CREATE, C_FILE
};
enum IoKind : int32_t { IO_OPEN = 1, IO_WRITE, IO_TRUNC, IO_SYNC, IO_CLOSE, IO_READ, IO_UNLINK };

struct Req {
  int32_t op, ctx, a, b, c, flags;
  int64_t id;
  uint64_t nbytes;
};
struct Rep {
  int32_t a, b, c, err;
  uint64_t nbytes;
};
struct Rec { int32_t tag; int32_t pad; int64_t idx; double val; };

struct Mailbox {
  std::atomic<int32_t> turn;  // 0 = controller, 1 = rank
  Req req;
  Rep rep;
  uint64_t nout;
  uint64_t alloc_count;       // allocations seen in the armed stage
  int32_t alloc_fired;
  char errmsg[2048];
  uint64_t nerr;
  char san[8192];             // first report of a sanitizer
  alignas(64) unsigned char data[MB_DATA];
  Rec out[OUT_MAX];
};

struct Shared {
  int32_t nranks;
  int32_t map[MAXRANKS];           // process of the program -> process of the job
  std::atomic<int64_t> clock_ns;   // simulated clock
  int64_t walltime0;
  Mailbox mb[MAXRANKS];
};

} // namespace sim
