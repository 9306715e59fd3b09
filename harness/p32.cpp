// P32: the HTTP clients and the email sender, over the loopback interface.
#include "http.hpp"

namespace {

//////////////////////////////////////// Client ////////////////////////////////////////

PBT(client, 800, 8000) {
	silence();
	const std::string host = ownAddress();
	Holder stub(host);
	const char * version = d.pick<const char *>({ "1.1", "1.0" });
	const std::string agent = gen::ident(d, 6);
	const bool fromUrl = d.boolean(), ownAgent = d.boolean(), tls = d.boolean();
	std::unique_ptr<HttpClient> client;
	if (fromUrl) {
		const std::string url = (tls ? "https://" : "http://") + host + ":" + std::to_string(stub.port) + d.pick<const char *>({ "", "/", "/some/path?q=1#f" });
		d.note(url);
		client = ownAgent ? HttpClient::newClient(url, agent, version) : HttpClient::newClient(url, version);
	} else if (tls) client.reset(ownAgent ? new HttpsClient(host, agent, stub.port, version) : new HttpsClient(host, stub.port, version));
	else if (ownAgent) client.reset(new HttpClient(host, agent, stub.port, version));
	else client.reset(new HttpClient(host, stub.port, version));
	MUST_THROW(HttpClient(host, stub.port, d.pick<const char *>({ "2", "1.2", "", "11" })), Exception::NetworkException, "");
	MUST_THROW(HttpClient::newClient(d.pick<const char *>({ "ftp://h/", "file:///x" }), "1.1"), Exception::BalauException, "");
	for (size_t n = 1 + d.upto(3); n > 0; --n) {
		const std::string method = d.pick<const char *>({ "GET", "HEAD", "POST" });
		const std::string path = d.chance(1, 6) ? "" : "/" + gen::ident(d, 8) + d.pick<const char *>({ "", "?a=b&c=%20", "/x.html", "//", "/%41" });
		const std::string body = method == "POST" && d.chance(4, 5) ? contentOf(d) : "";
		const int status = d.pick({ 200, 200, 404, 302, 500, 204 });
		const std::string content = status == 204 ? "" : contentOf(d);
		const size_t framing = status == 204 ? 0 : d.upto(2); // length, until the end, chunks
		const std::string extra = gen::ident(d, 8);
		std::vector<size_t> chunks;
		for (size_t left = content.size(); left > 0;) { const size_t k = chunks.size() > 20 ? left : 1 + d.upto(left - 1); chunks.push_back(k); left -= k; }
		d.note(method, " ", path, " ", body.size(), " status ", status, " framing ", framing, " ", content.size());
		std::string received, failure;
		std::thread server([&] {
			Connection c;
			pollfd p { stub.fd, POLLIN, 0 };
			if (poll(&p, 1, Patience) != 1) { failure = "the client does not connect"; return; }
			c.s.fd = accept(stub.fd, nullptr, nullptr);
			try {
				if (tls && !c.secure()) { failure = "no TLS handshake"; return; }
				size_t end;
				while ((end = c.buffer.find("\r\n\r\n")) == std::string::npos) if (!c.more("from the client")) break;
				const std::string headText = lower(c.buffer.substr(0, end));
				const size_t l = headText.find("content-length: ");
				const size_t length = l == std::string::npos ? 0 : (size_t) atoll(headText.c_str() + l + 16);
				while (end != std::string::npos && c.buffer.size() < end + 4 + length) if (!c.more("from the client")) break;
				received = c.buffer;
				std::string r = "HTTP/1.1 " + std::to_string(status) + " Reason\r\nX-Extra: " + extra + "\r\n";
				if (framing == 0 && status != 204) r += "Content-Length: " + std::to_string(content.size()) + "\r\n";
				if (framing == 2) r += "Transfer-Encoding: chunked\r\n";
				r += "\r\n";
				if (method != "HEAD") {
					if (framing != 2) r += content;
					else {
						size_t at = 0;
						char size[32];
						for (size_t k : chunks) { snprintf(size, sizeof size, "%zx\r\n", k); r += size + content.substr(at, k) + "\r\n"; at += k; }
						r += "0\r\n\r\n";
					}
				}
				c.buffer.clear();
				c.send(r);
				// A HEAD answer is complete without the end of the connection.
				if (method == "HEAD" || framing != 1) while (c.more("from the client")) {}
				else { c.endOfWriting(); while (c.more("from the client")) {} }
				if (method == "HEAD" || framing != 1) c.endOfWriting();
			} catch (const pbt::Failure & f) { failure = f.message; }
		});
		struct Join { std::thread & t; ~Join() { if (t.joinable()) t.join(); } } join { server };
		std::string what = "for " + method + " " + pbt::show(path), gotBody, gotExtra;
		int gotStatus = 0;
		if (method == "HEAD") { auto r = client->head(path); gotStatus = (int) r.result_int(); gotExtra = std::string(r["X-Extra"]); }
		else {
			auto r = method == "GET" ? client->get(path) : client->post(path, body);
			gotStatus = (int) r.result_int(); gotExtra = std::string(r["X-Extra"]); gotBody.assign(r.body().begin(), r.body().end());
		}
		server.join();
		CHECK(failure.empty(), failure << " " << what);
		CHECK(gotStatus == status && gotExtra == extra, "status " << gotStatus << " instead of " << status << " " << what);
		if (method != "HEAD") CHECK(gotBody == content, "body of " << gotBody.size() << " bytes instead of " << content.size() << " " << what);
		const size_t end = received.find("\r\n\r\n");
		CHECK(end != std::string::npos, "incomplete request " << what);
		const std::string first = method + " " + (path.empty() ? "/" : path) + " HTTP/" + version + "\r\n";
		CHECK(received.compare(0, first.size(), first) == 0, "request line " << pbt::show(received.substr(0, 100)) << " " << what);
		const std::string fields = received.substr(0, end + 2);
		CHECK(fields.find("\r\nHost: " + host) != std::string::npos, "host " << pbt::show(fields) << " " << what);
		CHECK(fields.find(ownAgent ? "\r\nUser-Agent: " + agent + "\r\n" : "\r\nUser-Agent: Balau ") != std::string::npos, "agent " << pbt::show(fields) << " " << what);
		CHECK(received.substr(end + 4) == body, "body of the request, " << received.size() - end - 4 << " bytes instead of " << body.size() << " " << what);
		d.nontrivial(content.size() > 0);
	}
	d.label(tls ? "https" : "http");
}

//////////////////////////////////////// Email ////////////////////////////////////////

std::string base64(const std::string & s) {
	std::string r(4 * ((s.size() + 2) / 3) + 1, 0);
	r.resize((size_t) EVP_EncodeBlock((unsigned char *) &r[0], (const unsigned char *) s.data(), (int) s.size()));
	return r;
}

// The part of a mail server that accepts a message.
struct Mail {
	std::vector<std::string> commands;
	std::string content, failure;
	bool accepted = false;

	// The stage at which the message is refused: 0 greeting, 1 authentication, 2 sender, 3 recipients, 4 data, 5 content; hang up instead of an answer.
	void serve(const Holder & listener, int refuse, bool hangUp) {
		try {
			Connection c;
			pollfd p { listener.fd, POLLIN, 0 };
			if (poll(&p, 1, Patience) != 1) { failure = "no connection to the mail server"; return; }
			c.s.fd = accept(listener.fd, nullptr, nullptr);
			if (!c.secure()) { failure = "no TLS handshake with the mail server"; return; }
			auto line = [&] (std::string & l) {
				size_t e;
				while ((e = c.buffer.find("\r\n")) == std::string::npos) if (!c.more("from the mail client")) return false;
				l = c.buffer.substr(0, e);
				c.buffer.erase(0, e + 2);
				return true;
			};
			auto answer = [&] (int stage, const char * good) {
				if (stage != refuse) { c.send(good); return true; }
				if (!hangUp) c.send("550 refused\r\n");
				return !hangUp;
			};
			std::string l;
			if (!answer(0, "220 stub\r\n")) return;
			while (line(l)) {
				commands.push_back(l);
				const std::string verb = lower(l.substr(0, 4));
				if (verb == "ehlo") c.send("250-stub\r\n250 AUTH PLAIN\r\n");
				else if (verb == "helo") c.send("250 stub\r\n");
				else if (verb == "auth") {
					if (lower(l) == "auth plain") { c.send("334 \r\n"); if (!line(l)) return; commands.back() += " " + l; }
					if (!answer(1, "235 ok\r\n")) return;
				} else if (verb == "mail") { if (!answer(2, "250 ok\r\n")) return; }
				else if (verb == "rcpt") { if (!answer(3, "250 ok\r\n")) return; }
				else if (verb == "data") {
					if (!answer(4, "354 go\r\n")) return;
					if (refuse == 4) continue;
					while (line(l) && l != ".") content += (l[0] == '.' ? l.substr(1) : l) + "\r\n";
					if (l != ".") { failure = "the content of the message is not ended"; return; }
					if (!answer(5, "250 ok\r\n")) return;
					accepted = refuse != 5;
				} else if (verb == "quit") { c.send("221 bye\r\n"); c.endOfWriting(); return; }
				else c.send("250 ok\r\n");
			}
		} catch (const pbt::Failure & f) { failure = f.message; }
	}
};

PBT(email, 400, 6000) {
	silence();
	const std::string host = ownAddress();
	Holder stub(host);
	const bool configured = d.chance(1, 3), redirects = configured || d.boolean();
	const std::string user = gen::ident(d, 6), password = gen::ident(d, 6), agent = configured ? gen::ident(d, 5) : d.boolean() ? "" : gen::ident(d, 5), subject = gen::ident(d, 20), from = gen::ident(d, 4) + "@from.org", to = gen::ident(d, 4) + "@to.org";
	std::vector<std::string> cc;
	if (!configured) for (size_t n = d.upto(2); n > 0; --n) cc.push_back(gen::ident(d, 3) + std::to_string(n) + "@cc.org");
	std::string next; // the body of the message made by the generator
	bool throws = false;
	EmailSendingHttpWebApp::ParameterMap given;
	std::mutex m;
	auto generator = [&] (HttpSession &, const StringRequest &, std::map<std::string, std::string> &, const EmailSendingHttpWebApp::ParameterMap & p) {
		std::lock_guard<std::mutex> l(m);
		given = p;
		if (throws) throw std::runtime_error("planned");
		return next;
	};
	Running r;
	std::vector<std::string> names;
	r.start([&] (unsigned short port) {
		if (configured) {
			names.clear();
			std::string t = "http.server {\n\tserver.id = E\n\tlisten = " + r.host + ":" + std::to_string(port) + "\n\thttp {\n\t\temail.sender {\n\t\t\tlocation = /\n\t\t\thost = " + host + "\n\t\t\tport = " + std::to_string(stub.port)
				+ "\n\t\t\tuser = " + user + "\n\t\t\tpassword = " + password + "\n\t\t\tsubject = " + subject + "\n\t\t\tfrom = " + from + "\n\t\t\tto = " + to + "\n\t\t\tuser-agent = " + agent
				+ "\n\t\t\tsuccess = /good\n\t\t\tfailure = /bad\n\t\t\tparameters {\n";
			std::map<size_t, std::string> order;
			for (size_t n = d.upto(3); n > 0; --n) order[d.upto(12)] = "p" + std::to_string(n);
			for (auto & o : order) names.push_back(o.second);
			std::vector<std::pair<size_t, std::string>> shuffled(order.begin(), order.end());
			if (d.boolean()) std::reverse(shuffled.begin(), shuffled.end());
			for (auto & o : shuffled) t += "\t\t\t\t" + o.second + " = " + std::to_string(o.first) + "\n";
			return std::make_shared<HttpServer>(systemClock(), propertiesOf(t + "\t\t\t}\n\t\t}\n\t}\n}\n"), false);
		}
		std::shared_ptr<HttpWebApp> app;
		if (redirects) app = std::make_shared<EmailSendingHttpWebApp>(generator, "/good", "/bad", host, stub.port, user, password, agent, subject, from, to, cc);
		else app = std::make_shared<EmailSendingHttpWebApp>(generator, canned("good"), canned("bad"), host, stub.port, user, password, agent, subject, from, to, cc);
		return std::make_shared<HttpServer>(systemClock(), "E", makeEndpoint(r.host, port), "", 1, app, std::shared_ptr<WsWebApp>(), "http.server", "session", MimeTypes::defaultMimeTypes, false);
	});
	std::set<std::string> identifiers;
	size_t accepted = 0;
	for (size_t n = 1 + d.upto(2); n > 0; --n) {
		Ask a;
		if (d.chance(1, 6)) {
			a.method = d.boolean() ? "GET" : "HEAD";
			Connection c;
			CHECK(c.connect(r.host, r.port), "connection refused");
			c.send(a.text(r.host));
			Reply reply;
			CHECK(c.receive(reply, a.head(), "from the email sender"), "no answer");
			CHECK(reply.status == 400, "status " << reply.status << " for " << a.show());
			pollfd p { stub.fd, POLLIN, 0 };
			CHECK(poll(&p, 1, 0) == 0, "an email is sent for " << a.show());
			continue;
		}
		a.method = "POST";
		std::map<std::string, std::string> form;
		for (auto & k : names) if (d.chance(4, 5)) form[k] = gen::ident(d, 10);
		for (size_t k = d.upto(2); k > 0; --k) form["x" + std::to_string(k)] = gen::ident(d, 10);
		for (auto & f : form) a.body += (a.body.empty() ? "" : "&") + f.first + "=" + f.second;
		if (form.empty()) { form["only"] = "v"; a.body = "only=v"; }
		const int refuse = d.chance(1, 3) ? (int) d.upto(5) : -1;
		const bool hangUp = refuse >= 0 && d.boolean();
		std::string body;
		{
			std::lock_guard<std::mutex> l(m);
			throws = !configured && d.chance(1, 10);
			size_t size = d.weighted({ 3, 2, 2 });
			size = size == 0 ? d.upto(300) : size == 1 ? d.pick<size_t>({ 15000, 16384, 32768, 40000 }) + d.upto(1500) : d.upto(100000);
			const std::string word = gen::ident(d, 30);
			const size_t lineLength = 1 + d.upto(70);
			const bool dots = d.boolean();
			body.clear();
			for (size_t k = 0; body.size() < size; ++k) {
				if (dots && k % 3 == 0) body += k % 2 ? "." : "..";
				body += std::to_string(k) + word.substr(0, std::min(word.size(), lineLength)) + "\r\n";
			}
			if (d.boolean()) body += "last line";
			next = body;
		}
		d.note("refuse ", refuse, hangUp ? " hang up" : "", throws ? " throws" : "", " body ", body.size());
		const std::string realIp = d.chance(1, 4) ? "10.1.2." + std::to_string(d.upto(255)) : "";
		if (!realIp.empty()) a.fields.emplace_back("X-Real-IP", realIp);
		Mail mail;
		std::thread server;
		if (!throws) server = std::thread([&] { mail.serve(stub, refuse, hangUp); });
		struct Join { std::thread & t; ~Join() { if (t.joinable()) t.join(); } } join { server };
		Connection c;
		CHECK(c.connect(r.host, r.port), "connection refused");
		c.send(a.text(r.host));
		Reply reply;
		CHECK(c.receive(reply, false, "from the email sender"), "no answer");
		if (server.joinable()) server.join();
		const bool good = refuse < 0 && !throws;
		CHECK(mail.failure.empty(), mail.failure);
		CHECK(good == mail.accepted, "the message was " << (mail.accepted ? "" : "not ") << "delivered");
		if (redirects) CHECK(reply.status == 302 && reply.header("location") == (good ? "/good" : "/bad"), "status " << reply.status << " location " << reply.header("location") << " when delivery " << (good ? "succeeds" : "fails"));
		else CHECK(reply.status == 200 && reply.header("content-type") == (good ? "text/good" : "text/bad"), "status " << reply.status << " type " << reply.header("content-type") << " when delivery " << (good ? "succeeds" : "fails"));
		if (!configured) {
			std::lock_guard<std::mutex> l(m);
			const std::map<std::string, std::string> sorted(given.begin(), given.end());
			CHECK(sorted == form, "the parameters given to the generator differ from those of the form");
		}
		if (!good) continue;
		++accepted;
		if (configured) {
			body = "\r\nIP: " + (realIp.empty() ? c.ownAddress() : realIp) + "\r\n";
			for (auto & k : names) body += k + ":\r\n" + (form.count(k) ? form[k] : "") + "\r\n\r\n";
		}
		std::string envelope;
		bool authenticated = false;
		for (auto & k : mail.commands) {
			const std::string verb = lower(k.substr(0, 4));
			if (verb == "auth") { authenticated = true; CHECK(k.substr(5) == "PLAIN " + base64(std::string(1, 0) + user + std::string(1, 0) + password), "authentication " << k); }
			if (verb == "mail" || verb == "rcpt") { CHECK(authenticated, "not authenticated"); envelope += k.substr(0, k.find('>') + 1) + "\n"; }
		}
		std::string expected = "MAIL FROM:<" + from + ">\nRCPT TO:<" + to + ">\n";
		for (auto & k : cc) expected += "RCPT TO:<" + k + ">\n";
		CHECK(envelope == expected, "sender and recipients " << pbt::show(envelope) << " instead of " << pbt::show(expected));
		const size_t split = mail.content.find("\r\n\r\n");
		CHECK(split != std::string::npos, "no header in the message");
		CHECK(mail.content.substr(split + 4) == body + "\r\n", "the body of the message differs: " << mail.content.size() - split - 4 << " bytes instead of " << body.size() + 2);
		std::multiset<std::string> fields, wanted { "From: " + from, "To: " + to, "Subject: " + subject };
		for (auto & k : cc) wanted.insert("Cc: " + k);
		if (!agent.empty()) wanted.insert("User-Agent: " + agent);
		size_t dates = 0, ids = 0;
		std::string head = mail.content.substr(0, split + 2);
		for (size_t e; (e = head.find("\r\n")) != std::string::npos; head.erase(0, e + 2)) {
			const std::string f = head.substr(0, e);
			if (f.compare(0, 6, "Date: ") == 0) ++dates;
			else if (f.compare(0, 12, "Message-ID: ") == 0) { ++ids; CHECK(identifiers.insert(f).second, "a message identifier is repeated: " << f); }
			else fields.insert(f);
		}
		CHECK(dates == 1 && ids == 1 && fields == wanted, "header of the message " << pbt::show(mail.content.substr(0, split)));
	}
	r.server->stop();
	d.nontrivial(accepted > 0);
	d.label(configured ? "configured" : redirects ? "redirects" : "handlers");
}

} // namespace
