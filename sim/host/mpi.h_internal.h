#pragma once
#include "core.h"
#include "../include/mpi.h"
namespace sim {
// Generic collective: every rank of comm calls enter() in the same order.
// `sig` must agree between ranks (kind, root, sizes); contributions are byte strings.
struct CollInst {
    std::string sig;
    std::vector<std::string> contrib;
    std::vector<char> joined;
    std::vector<std::vector<uint32_t>> vcs;
    int njoined = 0;
    bool ran = false;
    std::string result;
    std::shared_ptr<void> obj;
};
// wait_all: leave only when everyone joined; otherwise leave when `root_only` (root joined) or at once.
enum Leave { LEAVE_ALL, LEAVE_ROOT, LEAVE_NOW };
std::shared_ptr<CollInst> collective(int comm, const char* name, const std::string& sig, const std::string& contrib, Leave leave,
                                     int root, const std::function<void(CollInst&)>& on_complete = nullptr);
int world_rank();
int world_size();
size_t type_size(MPI_Datatype t);
}
