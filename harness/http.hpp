// What the checks of the HTTP server, the HTTP clients and the email sender share.
#pragma once
#include <Balau/Exception/BalauException.hpp>
#include <Balau/Network/Http/Server/NetworkTypes.hpp>
#include <Balau/Application/EnvironmentConfiguration.hpp>
#include <Balau/Application/Injector.hpp>
#include <Balau/Exception/NetworkExceptions.hpp>
#include <Balau/Logging/Logger.hpp>
#include <Balau/Network/Http/Client/HttpClient.hpp>
#include <Balau/Network/Http/Server/HttpServer.hpp>
#include <Balau/Network/Http/Server/HttpSession.hpp>
#include <Balau/Network/Http/Client/HttpsClient.hpp>
#include <Balau/Network/Http/Server/HttpWebApps/CannedHttpWebApp.hpp>
#include <Balau/Network/Http/Server/HttpWebApps/EmailSendingHttpWebApp.hpp>
#include <Balau/Network/Http/Server/HttpWebApps/FailingHttpWebApp.hpp>
#include <Balau/Network/Http/Server/HttpWebApps/FileServingHttpWebApp.hpp>
#include <Balau/Network/Http/Server/HttpWebApps/RoutingHttpWebApp.hpp>
#include <Balau/Resource/StringUri.hpp>
#include <Balau/System/SystemClock.hpp>
#include "gen.hpp"
#include <arpa/inet.h>
#include <dirent.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <openssl/err.h>
#include <openssl/evp.h>
#include <openssl/ssl.h>
#include <openssl/x509.h>
#include <sys/socket.h>
#include <atomic>
#include <regex>
#include <thread>

using namespace Balau;
using namespace Balau::Network;
using namespace Balau::Network::Http;
using namespace Balau::Network::Http::HttpWebApps;

namespace {

constexpr int Patience = 30000; // ms without any progress that count as a hang

struct Silence {
	Silence() { Logger::configure(std::string(". {\n level = none\n}\n")); signal(SIGPIPE, SIG_IGN); }
};

void silence() { static Silence s; }

// Each worker process has a loopback address of its own.
std::string ownAddress() {
	const unsigned p = (unsigned) getpid();
	return "127." + std::to_string(1 + (p >> 16) % 250) + "." + std::to_string((p >> 8) & 255) + "." + std::to_string(1 + (p & 255) % 254);
}

sockaddr_in toSockaddr(const std::string & host, unsigned short port) {
	sockaddr_in a {};
	a.sin_family = AF_INET;
	a.sin_port = htons(port);
	inet_pton(AF_INET, host.c_str(), &a.sin_addr);
	return a;
}

struct Fd {
	int fd = -1;
	Fd() = default;
	explicit Fd(int f) : fd(f) {}
	Fd(const Fd &) = delete;
	~Fd() { reset(); }
	void reset() { if (fd >= 0) close(fd); fd = -1; }
};

// A listening socket on a free port.
struct Holder : Fd {
	unsigned short port = 0;
	explicit Holder(const std::string & host) : Fd(socket(AF_INET, SOCK_STREAM, 0)) {
		sockaddr_in a = toSockaddr(host, 0);
		socklen_t n = sizeof a;
		if (fd < 0 || bind(fd, (sockaddr *) &a, n) || listen(fd, 16) || getsockname(fd, (sockaddr *) &a, &n)) throw pbt::Discard();
		port = ntohs(a.sin_port);
	}
};

unsigned short freePort(const std::string & host) { Holder h(host); return h.port; }

std::string lower(std::string s) { for (auto & c : s) c = (char) tolower((unsigned char) c); return s; }

struct Reply {
	int version = 0, status = 0;
	std::multimap<std::string, std::string> headers;
	std::string body;
	std::string header(const std::string & n) const { auto i = headers.find(n); return i == headers.end() ? "" : i->second; }
	bool has(const std::string & n) const { return headers.count(n) != 0; }
};

// A server certificate, signed by itself.
SSL_CTX * certificate() {
	static SSL_CTX * made = [] {
		SSL_CTX * c = SSL_CTX_new(TLS_server_method());
		EVP_PKEY * key = EVP_EC_gen("P-256");
		X509 * x = X509_new();
		ASN1_INTEGER_set(X509_get_serialNumber(x), 1);
		X509_gmtime_adj(X509_getm_notBefore(x), -3600);
		X509_gmtime_adj(X509_getm_notAfter(x), 360000);
		X509_set_pubkey(x, key);
		X509_NAME_add_entry_by_txt(X509_get_subject_name(x), "CN", MBSTRING_ASC, (const unsigned char *) "stub", -1, -1, 0);
		X509_set_issuer_name(x, X509_get_subject_name(x));
		X509_sign(x, key, EVP_sha256());
		if (SSL_CTX_use_certificate(c, x) != 1 || SSL_CTX_use_PrivateKey(c, key) != 1) abort();
		return c;
	}();
	return made;
}

struct Connection {
	Fd s;
	std::string buffer;
	bool eof = false;
	ssl_st * ssl = nullptr;

	Connection() = default;
	Connection(const Connection &) = delete;
	~Connection() { if (ssl) SSL_free(ssl); }

	bool secure() {
		timeval t { Patience / 1000, 0 };
		setsockopt(s.fd, SOL_SOCKET, SO_RCVTIMEO, &t, sizeof t);
		ssl = SSL_new(certificate());
		SSL_set_fd(ssl, s.fd);
		const bool done = SSL_accept(ssl) == 1;
		ERR_clear_error();
		return done;
	}

	std::string ownAddress() const {
		sockaddr_in a {};
		socklen_t n = sizeof a;
		char text[64] {};
		getsockname(s.fd, (sockaddr *) &a, &n);
		inet_ntop(AF_INET, &a.sin_addr, text, sizeof text);
		return text;
	}

	void endOfWriting() { if (ssl) { SSL_shutdown(ssl); ERR_clear_error(); } shutdown(s.fd, SHUT_WR); }

	bool connect(const std::string & host, unsigned short port) {
		s.reset(); buffer.clear(); eof = false;
		s.fd = socket(AF_INET, SOCK_STREAM, 0);
		sockaddr_in a = toSockaddr(host, port);
		if (::connect(s.fd, (sockaddr *) &a, sizeof a) != 0) { s.reset(); return false; }
		int one = 1;
		setsockopt(s.fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
		return true;
	}

	// Reads some more bytes. Returns false when the connection has ended.
	bool more(const char * what, int patience = Patience) {
		if (eof) return false;
		if (ssl) {
			char b[16384];
			const int n = SSL_read(ssl, b, sizeof b);
			CHECK(n > 0 || SSL_get_error(ssl, n) != SSL_ERROR_WANT_READ, "no answer: " << what);
			ERR_clear_error();
			if (n <= 0) { eof = true; return false; }
			buffer.append(b, (size_t) n);
			return true;
		}
		pollfd p { s.fd, POLLIN, 0 };
		const int r = poll(&p, 1, patience);
		CHECK(r != 0, "no answer from the server: " << what << "; received so far: " << pbt::show(buffer.substr(0, 300)));
		char b[65536];
		const ssize_t n = recv(s.fd, b, sizeof b, 0);
		if (n <= 0) { eof = true; return false; }
		buffer.append(b, (size_t) n);
		return true;
	}

	// Everything is sent while answers are collected (neither side is blocked by full buffers).
	bool send(const std::string & data, const std::vector<size_t> & cuts = {}) {
		if (ssl) {
			const bool sent = data.empty() || SSL_write(ssl, data.data(), (int) data.size()) == (int) data.size();
			ERR_clear_error();
			return sent;
		}
		size_t done = 0, next = 0;
		while (done < data.size()) {
			while (next < cuts.size() && cuts[next] <= done) ++next;
			const size_t end = next < cuts.size() ? std::min(cuts[next], data.size()) : data.size();
			pollfd p { s.fd, POLLIN | POLLOUT, 0 };
			if (poll(&p, 1, Patience) <= 0) FAIL("the server does not accept the request");
			if (p.revents & POLLIN) { if (!more("while sending")) return false; continue; }
			const ssize_t n = ::send(s.fd, data.data() + done, end - done, MSG_NOSIGNAL | MSG_DONTWAIT);
			if (n < 0) { if (errno == EAGAIN) continue; return false; }
			done += (size_t) n;
			if (done == end && done < data.size()) usleep(200);
		}
		return true;
	}

	// Returns false if the connection ended before the first byte of an answer.
	bool receive(Reply & r, bool head, const char * what) {
		r = {};
		size_t end;
		while ((end = buffer.find("\r\n\r\n")) == std::string::npos) {
			if (!more(what)) {
				CHECK(buffer.empty(), "the connection ended inside the head of an answer: " << pbt::show(buffer.substr(0, 300)) << " " << what);
				return false;
			}
			const size_t k = std::min<size_t>(5, buffer.size());
			CHECK(buffer.compare(0, k, std::string("HTTP/").substr(0, k)) == 0, "the bytes after the previous answer are not an answer: " << pbt::show(buffer.substr(0, 200)) << " " << what);
		}
		const std::string headText = buffer.substr(0, end);
		buffer.erase(0, end + 4);
		CHECK(headText.compare(0, 7, "HTTP/1.") == 0 && headText.size() >= 12 && (headText[7] == '0' || headText[7] == '1') && headText[8] == ' ', "malformed answer " << pbt::show(headText.substr(0, 200)) << " " << what);
		r.version = 10 + (headText[7] - '0');
		r.status = atoi(headText.c_str() + 9);
		for (size_t p = headText.find("\r\n"); p != std::string::npos;) {
			const size_t q = headText.find("\r\n", p + 2);
			const std::string line = headText.substr(p + 2, q == std::string::npos ? q : q - p - 2);
			const size_t c = line.find(':');
			CHECK(c != std::string::npos, "malformed header line " << pbt::show(line) << " " << what);
			size_t v = c + 1;
			while (v < line.size() && line[v] == ' ') ++v;
			r.headers.emplace(lower(line.substr(0, c)), line.substr(v));
			p = q;
		}
		if (head || r.status == 204 || r.status == 304 || r.status / 100 == 1) return true;
		CHECK(!r.has("transfer-encoding"), "a chunked answer " << what);
		if (r.has("content-length")) {
			const size_t n = (size_t) std::stoull(r.header("content-length"));
			while (buffer.size() < n) CHECK(more(what), "the connection ended inside the body of an answer, " << buffer.size() << " of " << n << " bytes " << what);
			r.body = buffer.substr(0, n);
			buffer.erase(0, n);
		} else {
			while (more(what)) {}
			r.body.swap(buffer);
			buffer.clear();
		}
		return true;
	}

	// After the client has finished, the server must finish as well, without a further answer.
	void finish(const char * what) {
		if (s.fd < 0) return;
		shutdown(s.fd, SHUT_WR);
		while (more(what)) {}
		CHECK(buffer.empty(), "bytes after the last answer: " << pbt::show(buffer.substr(0, 200)) << " " << what);
		s.reset();
	}
};

struct Running {
	std::string host = ownAddress();
	unsigned short port = 0;
	std::shared_ptr<HttpServer> server;

	// The server is made by the function from the port.
	template <typename F> void start(const F & make) {
		silence();
		for (int i = 0; ; ++i) {
			port = freePort(host);
			server = make(port);
			try { server->startAsync(); break; } catch (const Exception::NetworkException &) { if (i == 20) throw; }
		}
		CHECK(server->isRunning(), "a started server is not running");
		CHECK(server->getPort() == port && server->getAddress() == host, "address " << server->getAddress() << ":" << server->getPort());
	}
};

const std::shared_ptr<System::Clock> & systemClock() {
	static std::shared_ptr<System::Clock> c(new System::SystemClock);
	return c;
}

size_t openSockets() {
	size_t n = 0;
	DIR * dir = opendir("/proc/self/fd");
	char target[256];
	while (dirent * e = readdir(dir)) {
		const ssize_t k = readlinkat(dirfd(dir), e->d_name, target, sizeof target - 1);
		if (k > 7 && std::string(target, (size_t) k).compare(0, 7, "socket:") == 0) ++n;
	}
	closedir(dir);
	return n;
}

// The server releases the connections which have ended.
void checkReleased(size_t before) {
	for (int i = 0; ; ++i) {
		const size_t now = openSockets();
		if (now <= before) return;
		CHECK(i < Patience / 10, now << " sockets are open, " << before << " before the connections: ended connections are not released");
		usleep(10000);
	}
}

struct Ask {
	std::string method = "GET", target = "/";
	int version = 11;
	std::string connection; // the Connection field
	std::string body;
	std::vector<std::pair<std::string, std::string>> fields;
	bool keeps() const { return version == 11 ? connection != "close" : connection == "keep-alive"; }
	bool head() const { return method == "HEAD"; }
	std::string text(const std::string & host) const {
		std::string r = method + " " + target + (version == 11 ? " HTTP/1.1\r\n" : " HTTP/1.0\r\n") + "Host: " + host + "\r\n";
		if (!connection.empty()) r += "Connection: " + connection + "\r\n";
		if (!body.empty() || method == "POST") r += "Content-Length: " + std::to_string(body.size()) + "\r\n";
		for (auto & f : fields) r += f.first + ": " + f.second + "\r\n";
		return r + "\r\n" + body;
	}
	std::string show() const { return method + " " + pbt::show(target) + (version == 11 ? " 1.1" : " 1.0") + (connection.empty() ? "" : " " + connection) + (body.empty() ? "" : " " + std::to_string(body.size()) + " bytes"); }
};

void randomProtocol(pbt::Data & d, Ask & a) {
	a.version = d.chance(1, 5) ? 10 : 11;
	switch (d.draw(5)) {
		case 4: a.connection = "close"; break;
		case 5: a.connection = "keep-alive"; break;
		default: ;
	}
}

// Sends the requests over connections which are kept as long as both sides agree, pipelined in groups, and hands the answers over.
template <typename Judge> void converse(pbt::Data & d, const Running & r, const std::vector<Ask> & asks, const Judge & judge) {
	Connection c;
	bool open = false;
	for (size_t i = 0; i < asks.size();) {
		// Only requests whose answers leave the connection open are followed by others in the same group.
		size_t n = 1;
		if (d.boolean()) while (i + n < asks.size() && n < 4 && asks[i + n - 1].keeps() && !asks[i + n - 1].head()) ++n;
		std::string text;
		for (size_t k = 0; k < n; ++k) text += asks[i + k].text(r.host);
		std::vector<size_t> cuts;
		for (size_t k = d.chance(1, 3) ? d.upto(4) : 0; k > 0; --k) cuts.push_back(d.upto(std::min<size_t>(text.size(), 400)));
		std::sort(cuts.begin(), cuts.end());
		size_t answered = 0;
		for (int attempt = 0; ; ++attempt) {
			if (!open) { CHECK(c.connect(r.host, r.port), "the server does not accept connections before " << asks[i].show()); open = true; }
			c.send(text, cuts);
			bool ended = false;
			while (answered < n) {
				const Ask & a = asks[i + answered];
				const std::string what = "for " + a.show();
				Reply reply;
				if (!c.receive(reply, a.head(), what.c_str())) { ended = true; break; }
				judge(i + answered, reply);
				CHECK(reply.version == a.version, "version of the answer " << what);
				++answered;
				const bool framed = !a.head() && reply.has("content-length");
				if (framed && a.keeps()) CHECK(lower(reply.header("connection")) != "close", "the connection is not kept " << what);
				if (!a.keeps()) {
					while (c.more(what.c_str())) {}
					CHECK(c.buffer.empty(), "bytes after the last answer " << pbt::show(c.buffer.substr(0, 200)) << " " << what);
					ended = true;
					break;
				}
			}
			if (ended) open = false;
			if (answered == n) break;
			// The server may close a connection after an answer, but every new connection serves at least one request.
			CHECK(attempt == 0 || answered > 0, "the connection ended without an answer for " << asks[i + answered].show());
			CHECK(attempt < 8, "requests are not answered: " << asks[i + answered].show());
			i += answered; n -= answered; answered = 0; cuts.clear(); text.clear();
			for (size_t k = 0; k < n; ++k) text += asks[i + k].text(r.host);
			d.label("reconnected");
		}
		i += n;
	}
	if (open) c.finish("after the requests");
}

std::string contentOf(pbt::Data & d) {
	std::string unit = gen::bytes(d, 60) + (char) d.draw(255);
	size_t n = d.weighted({ 1, 5, 2, 2 });
	n = n == 0 ? 0 : n == 1 ? d.upto(2000) : n == 2 ? d.pick<size_t>({ 4095, 4096, 4097, 8192, 65536 }) : d.upto(300000);
	std::string r;
	while (r.size() < n) { r += unit; unit[unit.size() - 1]++; }
	r.resize(n);
	return r;
}

void writeFile(const std::string & path, const std::string & content) {
	std::ofstream f(path, std::ios::binary);
	f << content;
}

void removeTree(const std::string & path) {
	if (path.find(gen::scratch() + "/") != 0) abort();
	boost::filesystem::remove_all(path);
}

void commonFields(const Reply & r, const std::string & id, const std::string & cookie, const std::string & what) {
	CHECK(r.header("server") == id, "server identification " << pbt::show(r.header("server")) << " " << what);
	CHECK(r.headers.count("set-cookie") == 1 && r.header("set-cookie").compare(0, cookie.size() + 1, cookie + "=") == 0, "session cookie " << pbt::show(r.header("set-cookie")) << " " << what);
}

const std::vector<std::string> Methods { "PUT", "DELETE", "OPTIONS", "PATCH", "TRACE", "MKCOL" };

std::shared_ptr<HttpWebApp> canned(const std::string & id) {
	if (id.empty()) return {};
	return std::make_shared<CannedHttpWebApp>("text/" + id, "get " + id, "post " + id);
}

std::shared_ptr<EnvironmentProperties> propertiesOf(const std::string & text) {
	static const bool registered = (EnvironmentConfiguration::registerValueType<Endpoint>("endpoint"), true);
	(void) registered;
	std::vector<std::shared_ptr<Resource::Uri>> env { std::shared_ptr<Resource::Uri>(new Resource::StringUri(text)) };
	std::vector<std::shared_ptr<Resource::Uri>> spec { std::shared_ptr<Resource::Uri>(new Resource::File(BALAU_REPO "/src/main/resources/BalauConfig/balau.thconf")) };
	auto injector = Injector::create(EnvironmentConfiguration(env, spec));
	return injector->getShared<EnvironmentProperties>("http.server");
}

} // namespace
