#pragma once
// Logging stub: the log output is not part of any property.
#include <string>
#include <memory>
namespace log4cplus {
typedef std::string tstring;
typedef int LogLevel;
enum { INFO_LOG_LEVEL, ERROR_LOG_LEVEL, WARN_LOG_LEVEL, DEBUG_LOG_LEVEL };
struct Layout { virtual ~Layout() {} };
struct PatternLayout : Layout { PatternLayout(const tstring&) {} };
struct Appender { void setName(const tstring&) {} void setLayout(std::auto_ptr<Layout>) {} };
struct ConsoleAppender : Appender {};
namespace helpers { template <class T> struct SharedObjectPtr { T* p; SharedObjectPtr(T* x) : p(x) {} T* operator->() { return p; } }; }
struct Logger {
    static Logger getRoot() { return Logger(); }
    static Logger getInstance(const tstring&) { return Logger(); }
    void addAppender(helpers::SharedObjectPtr<Appender>) {}
    void addAppender(helpers::SharedObjectPtr<ConsoleAppender>) {}
    void setLogLevel(LogLevel) {}
};
}
#define LOG4CPLUS_TEXT(x) x
#define LOG4CPLUS_WARN(l, m) ((void)(l))
#define LOG4CPLUS_DEBUG(l, m) ((void)(l))
#define LOG4CPLUS_ERROR(l, m) ((void)(l))
#define LOG4CPLUS_INFO(l, m) ((void)(l))
