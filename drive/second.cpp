// a second translation unit that uses the header
#include "blet/args.h"

int secondUnit() {
    blet::Args a;
    a.setHelpException();
    a.addArgument("-a").action(a.STORE_TRUE);
    char p[] = "p", f[] = "-a";
    char* av[] = {p, f, NULL};
    a.parseArguments(2, av);
    return a["-a"] ? 0 : 1;
}
