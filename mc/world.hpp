// What one build of the library (one "world" of C30) is asked to do.
// Plain C++98: shared by the harness and by every world.
#ifndef MC_WORLD_HPP
#define MC_WORLD_HPP
#include <string>
#include <vector>

struct WDef {
    std::vector<std::string> names;
    int kind; // mc::Kind
    unsigned n;
    bool required;
    std::vector<std::string> defaults;
    std::string help, metavar;
    int dest;  // 0 none, see C30w.cpp
    int valid; // 0 none
};
enum { WDESTS = 27, WVALIDS = 9 };
struct WProg {
    std::vector<WDef> defs;
    bool alternative, strict;
    int form; // how lists are handed over
    int width[4];
    bool layout;
    std::string description, epilog;
    std::vector<std::vector<std::string> > lines;
    int then; // 0 nothing, 1 remove every other argument and parse again, 2 clear, define and parse again
};
typedef std::string (*World)(const WProg&);
#endif
