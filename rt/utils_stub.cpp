// Logging has no observable effect in the properties checked here.
#include "Utils.hh"
namespace utils {
void warningMsg(std::string) {}
void debugMsg(std::string) {}
void errorMsg(std::string) {}
void infoMsg(std::string) {}
void setLogLevel(DefinedLogLevel) {}
}
