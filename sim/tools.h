// The command-line tools as operations.  `mb` and `info` are modelled call by
// call (mtools.cc); `run` is judged against what the source tree says.
#pragma once
#include "model.h"
bool is_tool_op(const std::string &k);
Expect tool_eval(Model &m, const Op &op);
void tool_apply(Model &m, const Op &op, bool ok, const std::vector<std::string> &rows);
void tool_crashed(Model &m, const Op &op);
std::vector<Op> mb_subs(const Op &op);          // the requests of an mb op, in order
std::vector<std::string> mb_args(const Op &op); // the command line
#ifdef WITH_TOOLS
void tool_op(const Op &op, std::string &out);   // in the simulated process
#endif
