// A second translation unit of the same program, for C20.
#include "blet/args.h"
#include <sstream>

std::string otherUnit(int argc, char** argv, bool strict) {
    std::ostringstream r;
    blet::Args a;
    std::vector<std::string> list;
    std::string text;
    a.setStrict(strict).setHelpException().setVersionException();
    a.addArgument(a.vector("-s", "--simple")).dest(text).valid(new blet::Args::ValidChoise(a.vector("1", "v", "v1", "v2", "v3")));
    a.addArgument("-i").action(blet::Args::INFINITE).dest(list);
    a.addArgument("-v").action(blet::Args::VERSION);
    a.addArgument("P").valid(new blet::Args::ValidNumber());
    try {
        a.parseArguments(argc, argv);
        r << a["-s"] << "|" << a["-i"] << "|" << a["P"] << "|" << text << "|" << list.size() << "|" << a.getAdditionalArguments().size();
    }
    catch (const blet::Args::ParseArgumentException& e) { r << "error " << e.argument() << ": " << e.what(); }
    catch (const blet::Args::Exception& e) { r << e.what(); }
    return r.str() + a.getUsage();
}
blet::Args* otherObject() {
    static blet::Args a;
    return &a;
}
