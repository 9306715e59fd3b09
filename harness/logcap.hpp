// Capturing logging streams shared by the logging harnesses.
#pragma once
#include <Balau/Exception/BalauException.hpp>
#include <Balau/Util/Vectors.hpp>
#include <functional>
#include <Balau/Logging/Logger.hpp>
#include <mutex>
#include "gen.hpp"

namespace logcap {

struct Capture : Balau::LoggingStream {
	std::string uri;
	std::mutex mutex;
	std::vector<std::string> writes;
	size_t flushes = 0;

	explicit Capture(std::string_view u) : uri(u) {}
	void write(const Balau::LoggingSystem::LoggerString & s) override { std::lock_guard<std::mutex> l(mutex); writes.emplace_back(s.data(), s.size()); }
	void flush() override { std::lock_guard<std::mutex> l(mutex); ++flushes; }
};

// By URI; owned by the logging system, which never deletes streams before exit.
inline std::map<std::string, Capture *> & captures() { static std::map<std::string, Capture *> m; return m; }

inline Balau::LoggingStream * makeCapture(std::string_view uri) {
	auto * c = new Capture(uri);
	captures()[std::string(uri)] = c;
	return c;
}

inline Balau::LoggingStream * refuse(std::string_view) { throw std::runtime_error("no such stream"); }

inline void registerStreams() {
	static bool done = false;
	if (done) return;
	done = true;
	Balau::Logger::registerLoggingStreamFactory("cap", makeCapture);
	Balau::Logger::registerLoggingStreamFactory("refuse", refuse);
}

inline void clearCaptures() { for (auto & c : captures()) { std::lock_guard<std::mutex> l(c.second->mutex); c.second->writes.clear(); c.second->flushes = 0; } }

// Captures the standard streams.
struct Standard {
	std::stringbuf out, err;
	std::streambuf * oldOut, * oldErr;
	Standard() : oldOut(std::cout.rdbuf(&out)), oldErr(std::cerr.rdbuf(&err)) {}
	~Standard() { std::cout.rdbuf(oldOut); std::cerr.rdbuf(oldErr); }
};

} // namespace logcap
