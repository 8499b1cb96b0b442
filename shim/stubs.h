#ifndef STUBS_H
#define STUBS_H
#include <string>
#include <vector>
#include <list>
extern std::vector<std::string> vf_nclua_log;                 // what the players sent to NCLua
extern std::list<std::vector<std::string>> vf_nclua_inbox;    // what NCLua will answer
#endif
