#include <string>
std::string versionHelper() {return "verification harness\n";}
