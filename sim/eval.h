// Judges executed phases against the reference model.
#pragma once
#include "gen.h"

struct Viol { std::string kind, opk, text; u32 actor = 0, op = 0; std::string sig() const { return kind + "/" + opk; } };
struct Eval { std::vector<Viol> v; World w; bool invalid = false, crashed = false; std::string inv_why; u32 oks = 0, errs = 0, commits = 0; std::vector<std::string> notes; };
// `before`: listing and package bytes before the phase
struct Before { std::set<std::string> files; std::map<std::string, std::string> bytes; };
Before look_before(const World &w);
Eval eval_phase(const World &w, const Phase &ph, const PhaseResult &pr, const Before &b);
bool kind_counts(const Profile &p, const std::string &kind);
