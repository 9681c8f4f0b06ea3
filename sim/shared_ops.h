#ifndef SIM_SHARED_OPS_H
#define SIM_SHARED_OPS_H
#include <map>
#include <string>

#include "ops.h"
struct Shared;
void delete_shared(Shared*);
// Executes the op if it is one on shared components.
bool shared_op(std::map<std::string, Shared*>* all, const OpLine& o, std::string* out);
#endif
