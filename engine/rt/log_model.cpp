// Logging is outside every property here: this unit replaces stingraykit's log and profiler sources, on both the
// symbolic and the native side, by a logger that is always silent.
#include <stingraykit/log/Logger.h>
#include <stingraykit/log/SystemLogger.h>
#include <stingraykit/diagnostics/AsyncProfiler.h>
namespace stingray
{
	void Logger::SetLogLevel(LogLevel) { }
	LogLevel Logger::GetLogLevel() { return LogLevel::Silent; }
	LoggerStream Logger::Stream(LogLevel l, DuplicatingLogsFilter*) { return LoggerStream(null, LogLevel::Silent, l, null, null); }
	void Logger::SetLogLevel(const std::string&, optional<LogLevel>) { }
	optional<LogLevel> Logger::GetLogLevel(const std::string&) { return null; }
	NamedLogger::NamedLogger(const std::string& name, optional<LogLevel>) : _params(name), _logLevel(OptionalLogLevel::Null) { }
	LogLevel NamedLogger::GetLogLevel() const { return LogLevel::Silent; }
	void NamedLogger::SetLogLevel(optional<LogLevel>) { }
	LoggerStream NamedLogger::Stream(LogLevel l) const { return LoggerStream(null, LogLevel::Silent, l, null, null); }
	LoggerStream::LoggerStream(const NamedLoggerParams* p, LogLevel a, LogLevel b, DuplicatingLogsFilter* f, LogFunction* fn) : _loggerParams(p), _loggerLogLevel(LogLevel::Silent), _streamLogLevel(LogLevel::Trace), _duplicatingLogsFilter(f), _logFunction(fn) { }
	LoggerStream::~LoggerStream() { }
	void SystemLogger::Log(const LoggerMessage&) noexcept { }
	ActionLogger::ActionLogger(const std::string& a) : _namedLogger(null), _logLevel(LogLevel::Silent) { }
	ActionLogger::ActionLogger(LogLevel, const std::string& a) : _namedLogger(null), _logLevel(LogLevel::Silent) { }
	ActionLogger::ActionLogger(const NamedLogger&, const std::string& a) : _namedLogger(null), _logLevel(LogLevel::Silent) { }
	ActionLogger::ActionLogger(const NamedLogger&, LogLevel, const std::string& a) : _namedLogger(null), _logLevel(LogLevel::Silent) { }
	ActionLogger::~ActionLogger() { }
	Tracer::Tracer(const Detail::NamedLoggerAccessor& l, const char* f) : _logger(l), _funcName(f) { }
	Tracer::~Tracer() { }
	namespace Detail { namespace LoggerDetail { NullPtrType s_logger; } }
	AsyncProfiler::SessionImpl::SessionImpl(const char* n) : _name(n) { }
	AsyncProfiler::SessionImpl::SessionImpl(const optional<NameGetterFunc>&) : _name("") { }
	AsyncProfiler::Session::Session(const AsyncProfilerPtr&, const char* n, TimeDuration) : _nameHolder(n), _impl(n) { }
	AsyncProfiler::Session::Session(const AsyncProfilerPtr&, const std::string& n, TimeDuration) : _nameHolder(""), _impl("") { }
	AsyncProfiler::Session::Session(const AsyncProfilerPtr&, const NameGetterFunc&, TimeDuration, const NameGetterTag&) : _nameHolder(""), _impl("") { }
	AsyncProfiler::Session::~Session() { }
	AsyncProfiler::AsyncProfiler(const std::string&) { }
}
