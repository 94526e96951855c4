// Source trees for wixl, lists for wixl-heat, and what must come of them.
#pragma once
#include "model.h"
struct WxFacts { // what a build of the tree must contain
    bool bad = false, evil = false; std::string why;
    std::map<std::string, std::string> put; // files of the source tree, below its directory
    std::vector<std::string> args;          // sources and options on the command line
    std::vector<std::string> rows;          // tables of the package
    std::vector<std::string> list, tree;    // msiextract --list, and the extracted tree
};
const WxFacts &wx_facts(const std::string &dir, u32 seed, int bad);
struct HeatFacts { std::map<std::string, std::string> put; std::vector<std::string> dirs, args, rows; std::string in; };
const HeatFacts &heat_facts(u32 seed);
