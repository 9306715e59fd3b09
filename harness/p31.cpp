// P31: the HTTP server and its web applications, over the loopback interface.
#include "http.hpp"

namespace {

////////////////////////////////// File serving //////////////////////////////////

#ifndef PBT_TSAN
PBT(file_serving, 1200, 12000) {
	const std::string top = gen::scratch() + "/www";
	struct Clean { std::string p; ~Clean() { removeTree(p); } } clean { top };
	const std::string secret = "the secret of " + std::to_string(getpid());
	const std::string root = top + "/site";
	boost::filesystem::create_directories(root);
	boost::filesystem::create_directories(top + "/site-private");
	for (const char * f : { "/secret.txt", "/site-private/secret.txt", "/index.html", "/sitesecret.txt" }) writeFile(top + f, secret);
	std::map<std::string, std::string> files; // target -> content
	std::set<std::string> dirs { "" };
	std::vector<std::string> dirList { "" };
	for (size_t n = d.upto(3); n > 0; --n) {
		const std::string name = d.pick(dirList) + "/" + gen::ident(d, 2);
		if (dirs.insert(name).second) { dirList.push_back(name); boost::filesystem::create_directories(root + name); }
	}
	const std::string index = d.pick<const char *>({ "index.html", "home.txt", "" });
	static const std::vector<std::string> extensions { "", ".html", ".txt", ".css", ".JS", ".tar.gz", ".png", ".unknown", ".x.svg", ".", ".woff2", ".htm~" };
	for (size_t n = 1 + d.upto(5); n > 0; --n) {
		std::string name = d.pick(dirList) + "/";
		if (d.chance(1, 3)) name += d.pick<const char *>({ "index.html", "home.txt", "default" });
		else name += gen::ident(d, 3) + (d.chance(1, 6) ? "-_~!$&'()*,;=:@" : "") + d.pick(extensions);
		if (dirs.count(name) || files.count(name)) continue;
		files[name] = contentOf(d);
		writeFile(root + name, files[name]);
	}
	std::vector<std::string> names;
	for (auto & f : files) names.push_back(f.first);
	if (names.empty()) d.discard(); // The only file would have had the name of a directory.
	const size_t workers = d.pick<size_t>({ 1, 2, 4 });
	const std::string id = "Server " + gen::ident(d, 4), cookie = d.pick<const char *>({ "session", "sid", "x" });

	Running r;
	const bool simple = d.boolean();
	r.start([&] (unsigned short port) {
		if (simple) return std::make_shared<HttpServer>(systemClock(), id, makeEndpoint(r.host, port), "files", workers, Resource::File(root), index, "http.server", cookie, MimeTypes::defaultMimeTypes, false);
		return std::make_shared<HttpServer>(systemClock(), id, makeEndpoint(r.host, port), "files", workers, std::shared_ptr<HttpWebApp>(new FileServingHttpWebApp(Resource::File(root), index)),
			std::shared_ptr<WsWebApp>(), "http.server", cookie, MimeTypes::defaultMimeTypes, false);
	});
	const size_t before = openSockets();

	std::vector<Ask> asks;
	for (size_t n = 1 + d.upto(9); n > 0; --n) {
		Ask a;
		randomProtocol(d, a);
		switch (d.weighted({ 12, 4, 3, 2 })) {
			case 0: a.method = "GET"; break;
			case 1: a.method = "HEAD"; break;
			case 2: a.method = "POST"; a.body = contentOf(d); break;
			default: a.method = d.pick(Methods);
		}
		switch (d.weighted({ 8, 4, 3, 2, 5, 2 })) {
			case 0: a.target = d.pick(names); break;
			case 1: a.target = d.pick(dirList) + "/"; break;
			case 2: a.target = d.pick(names) + d.pick<const char *>({ "x", "/", "/index.html", "~" }); break;
			case 3: a.target = d.pick(dirList); if (a.target.empty()) a.target = "/"; break;
			case 4: {
				static const std::vector<std::string> escapes {
					"/../secret.txt", "/%2e%2e/secret.txt", "/..%2fsecret.txt", "/../site-private/secret.txt", "/.%2e/secret.txt", "/%2e./secret.txt", "/%2E%2E%2Fsecret.txt", "/..\\secret.txt",
					"/..", "/../", "/a/../../secret.txt", "-private/secret.txt", "/..;/secret.txt", "/%c0%ae%c0%ae/secret.txt", "/....//secret.txt", "/.../secret.txt", "secret.txt", "../secret.txt"
				};
				const std::string & e = d.pick(escapes);
				a.target = d.chance(1, 3) ? d.pick(dirList) + e : e;
				if (d.chance(1, 6)) a.target = d.pick<const char *>({ "", "/", "//" }) + top + "/secret.txt";
				if (d.chance(1, 8)) a.target = "http://" + r.host + "/../secret.txt";
				if (d.chance(1, 12)) a.target = "*";
				break;
			}
			default: a.target = "/" + gen::ident(d, 6) + d.pick(extensions);
		}
		d.note(a.show());
		asks.push_back(a);
	}
	size_t served = 0, refused = 0;
	converse(d, r, asks, [&] (size_t i, const Reply & reply) {
		const Ask & a = asks[i];
		const std::string what = "for " + a.show() + " index " + index;
		commonFields(reply, id, cookie, what);
		CHECK(reply.body.find(secret) == std::string::npos, "a file outside of the document root is served " << what);
		const bool dotdot = a.target.find("..") != std::string::npos;
		const bool odd = a.target[0] != '/' || a.target.find("//") != std::string::npos;
		if (dotdot || a.target[0] != '/') {
			CHECK(reply.status == 400 || reply.status == 404, "status " << reply.status << " " << what);
			++refused;
		} else if (a.method == "POST") {
			CHECK(reply.status == 404, "status " << reply.status << " " << what);
		} else if (a.method != "GET" && a.method != "HEAD") {
			CHECK(reply.status / 100 == 4 || reply.status == 501, "status " << reply.status << " " << what);
		} else if (odd) {
			CHECK(reply.status == 200 || reply.status / 100 == 4, "status " << reply.status << " " << what);
		} else {
			const std::string path = a.target.back() == '/' ? (index.empty() ? a.target.substr(0, a.target.size() - 1) : a.target + index) : a.target;
			auto file = files.find(path);
			if (file == files.end()) {
				CHECK(reply.status == 404, "status " << reply.status << " " << what);
			} else if (a.target.back() == '/' && index.empty()) {
				// A file name followed by a slash: not specified.
			} else {
				++served;
				CHECK(reply.status == 200, "status " << reply.status << " " << what);
				const std::string type(MimeTypes::defaultMimeTypes->lookup(path));
				CHECK(reply.header("content-type") == type, "type " << pbt::show(reply.header("content-type")) << " instead of " << pbt::show(type) << " " << what);
				if (a.method == "GET") {
					CHECK(reply.has("content-length"), "no length " << what);
					CHECK(reply.body == file->second, "content: " << reply.body.size() << " bytes instead of " << file->second.size() << " " << what);
				} else if (reply.has("content-length")) {
					CHECK(reply.header("content-length") == std::to_string(file->second.size()), "length of HEAD " << what);
				}
			}
		}
		if (a.head() == false) CHECK(reply.status != 200 || a.method == "GET", "status 200 " << what);
	});
	checkReleased(before);
	r.server->stop();
	CHECK(!r.server->isRunning(), "a stopped server is running");
	d.nontrivial(served > 0 && asks.size() > 2);
	if (refused) d.label("escapes");
	d.label(simple ? "document root" : "web app");
}

#endif

///////////////////////////////////// Routing /////////////////////////////////////

struct Place { std::string get, head, post; }; // the identities of the handlers


std::vector<std::string> componentsOf(const std::string & path) {
	std::vector<std::string> r;
	std::string c;
	for (char x : path) { if (x != '/') c += x; else { if (!c.empty()) r.push_back(c); c.clear(); } }
	if (!c.empty()) r.push_back(c);
	return r;
}

#ifndef PBT_TSAN
PBT(routing, 1200, 12000) {
	using R = RoutingHttpWebApp;
	std::map<std::vector<std::string>, Place> places;
	static const std::vector<std::string> parts { "a", "b", "ab", "c.html", "d-e" };
	int serial = 0;
	auto randomPlace = [&] {
		Place p;
		if (d.chance(1, 5)) return p; // a null node
		const std::string shared = "h" + std::to_string(++serial);
		p.get = d.chance(1, 6) ? "" : shared;
		p.head = d.chance(1, 6) ? "" : shared;
		p.post = d.chance(1, 3) ? "h" + std::to_string(++serial) : d.chance(1, 6) ? "" : shared;
		return p;
	};
	places[{}] = randomPlace();
	std::vector<std::vector<std::string>> keys { {} };
	for (size_t n = d.upto(7); n > 0; --n) {
		auto key = d.pick(keys);
		if (key.size() > 3) continue;
		key.push_back(d.pick(parts));
		if (places.count(key)) continue;
		places[key] = randomPlace();
		keys.push_back(key);
	}
	auto value = [&] (const std::string & key, const Place & p) { return R::Value(key, canned(p.get), canned(p.head), canned(p.post)); };
	R::Routing routing(value("", places[{}]));
	for (auto & p : places) {
		if (p.first.empty()) continue;
		std::vector<std::string> key(p.first);
		R::Node & node = routing.findOrAdd(key, [] (auto & l, auto & k) { return std::get<0>(l) == k; }, [] (auto & k) { return R::Value(k, nullptr, nullptr, nullptr); });
		node.value = value(key.back(), p.second);
	}
	for (auto & p : places) {
		std::string k;
		for (auto & c : p.first) k += "/" + c;
		d.note("node ", k, " get ", p.second.get, " head ", p.second.head, " post ", p.second.post);
	}
	const std::string id = "R";
	Running r;
	auto app = std::shared_ptr<HttpWebApp>(new R(std::move(routing)));
	r.start([&] (unsigned short port) { return std::make_shared<HttpServer>(systemClock(), id, makeEndpoint(r.host, port), "", 2, app, std::shared_ptr<WsWebApp>(), "http.server", "session", MimeTypes::defaultMimeTypes, false); });
	std::vector<Ask> asks;
	for (size_t n = 2 + d.upto(10); n > 0; --n) {
		Ask a;
		randomProtocol(d, a);
		switch (d.weighted({ 4, 2, 2 })) { case 0: break; case 1: a.method = "HEAD"; break; default: a.method = "POST"; a.body = gen::ident(d, 20); }
		auto key = d.pick(keys);
		for (size_t k = d.weighted({ 3, 3, 1 }); k > 0; --k) key.push_back(d.chance(2, 3) ? d.pick(parts) : gen::ident(d, 2));
		if (!key.empty() && d.chance(1, 6)) key.erase(key.begin() + d.upto(key.size() - 1));
		a.target.clear();
		for (auto & c : key) a.target += "/" + c;
		if (a.target.empty()) a.target = "/";
		d.note(a.show());
		asks.push_back(a);
	}
	size_t found = 0, deep = 0;
	converse(d, r, asks, [&] (size_t i, const Reply & reply) {
		const Ask & a = asks[i];
		const std::string what = "for " + a.show();
		// The most specific place which has handlers.
		auto key = componentsOf(a.target);
		std::vector<std::vector<std::string>> prefixes { {} };
		for (auto & c : key) { auto p = prefixes.back(); p.push_back(c); if (!places.count(p)) break; prefixes.push_back(p); }
		while (prefixes.size() > 1) { auto & p = places[prefixes.back()]; if (p.get.empty() && p.head.empty() && p.post.empty()) prefixes.pop_back(); else break; }
		const Place & p = places[prefixes.back()];
		const std::string handler = a.method == "GET" ? p.get : a.method == "HEAD" ? p.head : p.post;
		commonFields(reply, id, "session", what);
		if (handler.empty()) {
			CHECK(reply.status == 404, "status " << reply.status << " instead of not found " << what);
		} else {
			++found;
			if (prefixes.size() > 2) ++deep;
			CHECK(reply.status == 200, "status " << reply.status << " instead of the answer of " << handler << " " << what);
			CHECK(reply.header("content-type") == "text/" + handler, "answered by " << reply.header("content-type") << " instead of " << handler << " " << what);
			const std::string body = (a.method == "POST" ? "post " : "get ") + handler;
			if (a.head()) CHECK(reply.header("content-length") == std::to_string(body.size()), "length of HEAD " << what);
			else CHECK(reply.body == body, "body " << pbt::show(reply.body) << " " << what);
		}
	});
	r.server->stop();
	d.nontrivial(found > 1 && deep > 0);
}

#endif

//////////////////////////////// Configured servers ////////////////////////////////




struct Rule { size_t position; int code; std::string regex, path; bool positioned; };

#ifndef PBT_TSAN
PBT(configured, 800, 8000) {
	silence();
	const std::string top = gen::scratch() + "/conf";
	struct Clean { std::string p; ~Clean() { removeTree(p); } } clean { top };
	boost::filesystem::create_directories(top);
	static const std::vector<std::string> parts { "a", "b", "ab", "r", "x1" };
	std::map<std::vector<std::string>, std::string> locations;
	bool duplicate = false;
	auto randomLocations = [&] (const std::string & app) {
		std::string text;
		for (size_t n = 1 + d.upto(2); n > 0; --n) {
			std::string l;
			for (size_t k = d.upto(3); k > 0; --k) l += "/" + d.pick(parts);
			if (l.empty()) l = "/";
			auto key = componentsOf(l);
			if (locations.count(key)) { if (!d.chance(1, 20)) continue; duplicate = true; }
			locations[key] = app;
			text += (text.empty() ? "" : d.pick<const char *>({ " ", "  ", "\t" })) + l;
		}
		return text;
	};
	std::string http;
	std::map<std::string, std::string> files;
	std::vector<Rule> rules;
	const bool hasIndex = d.boolean();
	std::string type, getBody, postBody;
	for (const char * app : { "canned", "failing", "files", "redirections" }) {
		if (d.chance(1, 5)) continue;
		const std::string l = randomLocations(app);
		if (l.empty() && !d.chance(1, 3)) continue;
		http += std::string("\t\t") + app + " {\n";
		if (!l.empty()) http += "\t\t\tlocation = " + l + "\n";
		if (app == std::string("canned")) {
			type = "text/" + gen::ident(d, 4); getBody = gen::ident(d, 30); postBody = gen::ident(d, 30);
			http += "\t\t\tmime.type = " + type + "\n\t\t\tget.body = " + getBody + "\n\t\t\tpost.body = " + postBody + "\n";
		} else if (app == std::string("files")) {
			http += "\t\t\troot = file:" + top + "\n";
			if (hasIndex) http += "\t\t\tindex = start.abc\n";
			// Files at and below the locations.
			for (auto & loc : locations) {
				if (loc.second != "files") continue;
				std::string dir;
				for (auto & c : loc.first) dir += "/" + c;
				boost::filesystem::create_directories(top + dir);
				for (const char * f : { "/start.abc", "/index.html", "/page.abc", "/page.txt" }) {
					if (!d.chance(3, 4)) continue;
					files[dir + f] = std::string(f) + " of " + dir;
					writeFile(top + dir + f, files[dir + f]);
				}
			}
		} else if (app == std::string("redirections")) {
			http += "\t\t\tmatches {\n";
			const size_t n = d.upto(4);
			for (size_t k = 0; k < n; ++k) {
				Rule u;
				u.positioned = d.chance(2, 3);
				u.position = 1 + d.upto(30);
				if (std::any_of(rules.begin(), rules.end(), [&] (const Rule & o) { return o.positioned && o.position == u.position; })) u.positioned = false;
				// Rules without a position have an undefined order: they are disjoint.
				const std::string literal = u.positioned ? d.pick(parts) : "u" + std::to_string(k);
				u.regex = "^.*/" + literal + d.pick<const char *>({ "/(.*)$", "/(.*)/(.*)$", "/([a-z]+)/([0-9]*)$", "$", "/(.*)/(.*)/(.*)$" });
				if (std::any_of(rules.begin(), rules.end(), [&] (const Rule & o) { return o.regex == u.regex; })) continue;
				u.path = "/to" + std::to_string(k);
				for (size_t v = d.upto(4); v > 0; --v) u.path += "/$" + std::to_string(1 + d.upto(3)) + d.pick<const char *>({ "", ".html", "/end" });
				const int form = u.positioned ? 0 : d.boolean() ? 1 : 2;
				u.code = form == 2 ? 302 : d.pick({ 301, 302, 302, 307 });
				http += "\t\t\t\t" + u.regex + " = " + (form == 0 ? std::to_string(u.position) + " " : "") + (form < 2 ? std::to_string(u.code) + " " : "") + u.path + "\n";
				rules.push_back(u);
			}
			http += "\t\t\t}\n";
		}
		http += "\t\t}\n";
	}
	std::stable_sort(rules.begin(), rules.end(), [] (const Rule & a, const Rule & b) { return (a.positioned ? a.position : 1000) < (b.positioned ? b.position : 1000); });
	const bool mime = d.boolean();
	const int workers = (int) d.pick<size_t>({ 1, 2, 3 });
	const std::string id = gen::ident(d, 5), cookie = d.boolean() ? "session" : gen::ident(d, 5);
	Running r;
	auto text = [&] (unsigned short port) {
		std::string t = "http.server {\n\tserver.id = " + id + "\n\tworker.count = " + std::to_string(workers) + "\n\tlisten = " + r.host + ":" + std::to_string(port) + "\n";
		if (cookie != "session") t += "\tsession-cookie-name = " + cookie + "\n";
		if (mime) t += "\tmime.types {\n\t\ttext/abc = abc, abcd\n\t\ttext/text = txt\n\t}\n";
		return t + "\thttp {\n" + http + "\t}\n}\n";
	};
	d.note(text(1));
	if (duplicate) {
		d.label("duplicate location");
		try { HttpServer s(systemClock(), propertiesOf(text(freePort(r.host))), false); } catch (const Exception::NetworkException &) { return; }
		FAIL("two web applications with the same location were accepted");
	}
	r.start([&] (unsigned short port) { return std::make_shared<HttpServer>(systemClock(), propertiesOf(text(port)), false); });
	std::vector<std::vector<std::string>> keys { {} };
	for (auto & l : locations) keys.push_back(l.first);
	std::vector<Ask> asks;
	for (size_t n = 2 + d.upto(12); n > 0; --n) {
		Ask a;
		randomProtocol(d, a);
		switch (d.weighted({ 5, 2, 2 })) { case 0: break; case 1: a.method = "HEAD"; break; default: a.method = "POST"; a.body = gen::ident(d, 20); }
		auto key = d.pick(keys);
		a.target.clear();
		for (auto & c : key) a.target += "/" + c;
		switch (d.draw(6)) {
			case 0: a.target += "/page.abc"; break;
			case 1: a.target += "/"; break;
			case 2: a.target += "/index.html"; break;
			case 3: a.target += "/page.txt"; break;
			case 4: if (!rules.empty()) { a.target += d.pick(rules).regex.substr(3); a.target.resize(a.target.find_first_of("($") == std::string::npos ? a.target.size() : a.target.find_first_of("($")); } for (size_t k = d.upto(3); k > 0; --k) { if (a.target.empty() || a.target.back() != '/') a.target += "/"; a.target += d.pick<const char *>({ "abc", "12", "x", "y.html" }); } break;
			default: for (size_t k = d.upto(3); k > 0; --k) a.target += "/" + d.pick(parts);
		}
		if (a.target.empty()) a.target = "/";
		if (a.target.find("//") != std::string::npos) continue;
		d.note(a.show());
		asks.push_back(a);
	}
	size_t routed = 0, redirected = 0;
	converse(d, r, asks, [&] (size_t i, const Reply & reply) {
		const Ask & a = asks[i];
		auto key = componentsOf(a.target);
		while (!key.empty() && !locations.count(key)) key.pop_back();
		auto l = locations.find(key);
		const std::string app = l == locations.end() ? "" : l->second;
		const std::string what = "for " + a.show() + " handled by " + (app.empty() ? "nothing" : app);
		commonFields(reply, id, cookie, what);
		if (!app.empty()) ++routed;
		if (app.empty() || app == "failing") {
			CHECK(reply.status == 404, "status " << reply.status << " " << what);
		} else if (app == "canned") {
			CHECK(reply.status == 200 && reply.header("content-type") == type, "status " << reply.status << " type " << reply.header("content-type") << " " << what);
			if (!a.head()) CHECK(reply.body == (a.method == "POST" ? postBody : getBody), "body " << pbt::show(reply.body) << " " << what);
			else CHECK(reply.header("content-length") == std::to_string(getBody.size()), "length of HEAD " << what);
		} else if (app == "files") {
			const std::string path = a.target.back() == '/' ? a.target + (hasIndex ? "start.abc" : "index.html") : a.target;
			auto f = files.find(path);
			if (f == files.end() || a.method == "POST") CHECK(reply.status == 404, "status " << reply.status << " " << what);
			else {
				CHECK(reply.status == 200, "status " << reply.status << " " << what);
				if (!a.head()) CHECK(reply.body == f->second, "content " << pbt::show(reply.body) << " " << what);
				const std::string ext = path.substr(path.rfind('.') + 1);
				const std::string t = mime ? (ext == "abc" ? "text/abc" : ext == "txt" ? "text/text" : "") : (ext == "txt" ? "text/plain" : ext == "html" ? "text/html" : "");
				CHECK(reply.header("content-type") == t, "type " << reply.header("content-type") << " instead of " << t << " " << what);
			}
		} else {
			const Rule * rule = nullptr;
			std::smatch m;
			for (auto & u : rules) if (std::regex_match(a.target, m, std::regex(u.regex))) { rule = &u; break; }
			if (!rule) { CHECK(reply.status == 404, "status " << reply.status << " " << what); return; }
			++redirected;
			std::string to;
			for (size_t k = 0; k < rule->path.size(); ++k) {
				if (rule->path[k] != '$') { to += rule->path[k]; continue; }
				const size_t group = (size_t) (rule->path[++k] - '0');
				if (group < m.size()) to += m[group].str();
			}
			CHECK(reply.status == (rule->code == 301 ? 301 : 302), "status " << reply.status << " instead of " << rule->code << " " << what);
			CHECK(reply.header("location") == to, "redirected to " << pbt::show(reply.header("location")) << " instead of " << pbt::show(to) << " " << what);
		}
	});
	r.server->stop();
	d.nontrivial(routed > 1 && locations.size() > 1);
	if (redirected) d.label("redirected");
}

#endif

////////////////////////////////// Hostile clients //////////////////////////////////

PBT(malformed, 800, 8000, 0, 120) {
	Running r;
	const std::string id = "M";
	struct Throwing : HttpWebApp {
		void answer(const StringRequest & q) { if (q.target() == "/std") throw std::runtime_error("planned"); throw 42; }
		void handleGetRequest(HttpSession &, const StringRequest & q, std::map<std::string, std::string> &) override { answer(q); }
		void handleHeadRequest(HttpSession &, const StringRequest & q, std::map<std::string, std::string> &) override { answer(q); }
		void handlePostRequest(HttpSession &, const StringRequest & q, std::map<std::string, std::string> &) override { answer(q); }
	};
	using R = RoutingHttpWebApp;
	R::Routing routing(R::Value("", canned("good"), canned("good"), canned("good")));
	auto throwing = std::shared_ptr<HttpWebApp>(new Throwing);
	routing.add(R::Value("std", throwing, throwing, throwing));
	routing.add(R::Value("int", throwing, throwing, throwing));
	auto app = std::shared_ptr<HttpWebApp>(new R(std::move(routing)));
	r.start([&] (unsigned short port) { return std::make_shared<HttpServer>(systemClock(), id, makeEndpoint(r.host, port), "", d.pick<size_t>({ 1, 2 }), app, std::shared_ptr<WsWebApp>(), "http.server", "session", MimeTypes::defaultMimeTypes, false); });
	const size_t before = openSockets();
	Ask good;
	good.target = "/x";
	size_t hostile = 0;
	for (size_t n = 1 + d.upto(5); n > 0; --n) {
		Connection c;
		CHECK(c.connect(r.host, r.port), "the server does not accept connections");
		std::string text;
		const size_t kind = d.weighted({ 2, 4, 2, 2, 2, 2, 3 });
		d.note("kind ", kind);
		switch (kind) {
			case 0: text = gen::bytes(d, 300); break;
			case 1: {
				Ask a;
				a.method = d.pick<const char *>({ "GET", "POST", "HEAD" });
				if (a.method == "POST") a.body = gen::ident(d, 40);
				text = a.text(r.host);
				for (size_t k = 1 + d.upto(3); k > 0 && !text.empty(); --k) {
					const size_t at = d.upto(text.size() - 1);
					switch (d.draw(4)) {
						case 0: text[at] = (char) d.draw(255); break;
						case 1: text.insert(at, gen::bytes(d, 8)); break;
						case 2: text.erase(at, 1 + d.upto(8)); break;
						case 3: text.insert(at, text.substr(at, d.upto(20))); break;
						default: text.resize(at); if (text.empty()) text = "G";
					}
				}
				break;
			}
			case 2: text = "GET /x HTTP/1.1\r\nHost: h\r\nLong: " + std::string(d.pick<size_t>({ 7000, 9000, 100000 }), 'x') + "\r\n\r\n"; break;
			case 3: text = "POST /x HTTP/1.1\r\nHost: h\r\nContent-Length: " + std::string(d.pick<const char *>({ "99999999999999999999", "-1", "abc", "2000000", "18446744073709551615", "5, 6" })) + "\r\n\r\nabc"; break;
			case 4: text = "POST /x HTTP/1.1\r\nHost: h\r\nTransfer-Encoding: chunked\r\n\r\n" + std::string(d.pick<const char *>({ "zz\r\nabc\r\n", "3\r\nabc\r\n0\r\n\r\n", "ffffffffffffffffff\r\n", "3\r\nabcd\r\n0\r\n\r\n", "1;x=y\r\na\r\n0\r\nT: v\r\n\r\n" })); break;
			case 5: text = good.text(r.host); text.resize(d.upto(text.size() - 1)); break; // ends early
			default: {
				// A request whose handling throws.
				Ask a;
				a.method = d.pick<const char *>({ "GET", "POST", "HEAD" });
				a.target = d.boolean() ? "/std" : "/int";
				c.send(a.text(r.host));
				Reply reply;
				CHECK(c.receive(reply, a.head(), "for a handler that throws"), "no answer when the handler throws " << a.show());
				CHECK(reply.status == 500, "status " << reply.status << " when the handler throws " << a.show());
				c.finish("after a handler that throws");
				++hostile;
				continue;
			}
		}
		d.note("bytes ", pbt::show(text.substr(0, 400)));
		++hostile;
		if (c.send(text) && d.chance(1, 4)) { // vanishes
			linger l { 1, 0 };
			setsockopt(c.s.fd, SOL_SOCKET, SO_LINGER, &l, sizeof l);
			continue;
		}
		// The server ends the connection after the client has, whatever was sent.
		shutdown(c.s.fd, SHUT_WR);
		while (c.more("after a malformed request")) {}
		if (!c.buffer.empty()) CHECK(c.buffer.compare(0, 7, "HTTP/1.") == 0, "answer to a malformed request " << pbt::show(c.buffer.substr(0, 200)));
	}
	// The server still serves.
	converse(d, r, { good, good }, [&] (size_t, const Reply & reply) { CHECK(reply.status == 200 && reply.body == "get good", "a correct request after malformed ones: status " << reply.status); });
	checkReleased(before);
	r.server->stop();
	d.nontrivial(hostile > 1);
}

///////////////////////////////////// Sessions /////////////////////////////////////

std::string sessionOf(const Reply & r, const std::string & cookie) {
	const std::string c = r.header("set-cookie");
	CHECK(c.compare(0, cookie.size() + 1, cookie + "=") == 0, "session cookie " << pbt::show(c));
	const std::string id = c.substr(cookie.size() + 1, c.find(';') - cookie.size() - 1);
	CHECK(id.size() >= 16, "session identifier " << pbt::show(id));
	CHECK(c.find("HttpOnly") != std::string::npos, "the session cookie is not restricted to HTTP: " << pbt::show(c));
	return id;
}

PBT(sessions, 800, 8000) {
	Running r;
	const std::string cookie = d.pick<const char *>({ "session", "s", "my-session" });
	r.start([&] (unsigned short port) { return std::make_shared<HttpServer>(systemClock(), "S", makeEndpoint(r.host, port), "", d.pick<size_t>({ 1, 3 }), canned("x"), std::shared_ptr<WsWebApp>(), "http.server", cookie, MimeTypes::defaultMimeTypes, false); });
	std::vector<std::string> issued;
	std::set<std::string> all;
	std::vector<std::unique_ptr<Connection>> connections;
	for (int i = 0; i < 3; ++i) { connections.emplace_back(new Connection); CHECK(connections.back()->connect(r.host, r.port), "connection refused"); }
	size_t resumed = 0, forged = 0;
	for (size_t n = 3 + d.upto(12); n > 0; --n) {
		Ask a;
		std::string expected, sent;
		const size_t kind = d.weighted({ 3, issued.empty() ? 0u : 6u, 2 });
		if (kind == 1) { expected = sent = d.pick(issued); ++resumed; }
		if (kind == 2) { sent = d.boolean() && !issued.empty() ? d.pick(issued).substr(1) : gen::ident(d, 40); ++forged; }
		if (kind != 0) {
			std::string f = cookie + "=" + sent;
			if (d.chance(1, 3)) f = "a=" + gen::ident(d, 3) + "; " + f;
			if (d.chance(1, 3)) f += "; other" + cookie + "=" + gen::ident(d, 5);
			if (d.chance(1, 6)) f = "x" + cookie + "=zzz; " + f;
			if (d.chance(1, 6)) f = "broken; " + f;
			a.fields.emplace_back("Cookie", f);
		}
		if (d.chance(1, 4)) { a.method = "POST"; a.body = "b"; }
		auto & c = *d.pick<Connection *>({ connections[0].get(), connections[1].get(), connections[2].get() });
		c.send(a.text(r.host));
		Reply reply;
		CHECK(c.receive(reply, false, "for a request with a cookie"), "no answer");
		const std::string id = sessionOf(reply, cookie);
		if (!expected.empty()) CHECK(id == expected, "session " << id << " instead of the one of the cookie, " << expected);
		else {
			CHECK(all.insert(id).second, "a request without a valid session was given the existing session " << id);
			CHECK(id != sent, "a session identifier chosen by the client was accepted: " << sent);
			issued.push_back(id);
		}
	}
	for (auto & c : connections) c->finish("after the requests");
	r.server->stop();
	d.nontrivial(resumed > 0 && issued.size() > 1);
	if (forged) d.label("forged");
}

//////////////////////////////////// Concurrency ////////////////////////////////////

PBT(concurrent_clients, 300, 3000, PBT_CONCURRENT, 120) {
	const size_t handlers = 3;
	using R = RoutingHttpWebApp;
	R::Routing routing(R::Value("", nullptr, nullptr, nullptr));
	std::vector<std::string> bodies;
	for (size_t i = 0; i < handlers; ++i) {
		bodies.push_back(contentOf(d) + std::to_string(i));
		auto h = std::make_shared<CannedHttpWebApp>("text/t" + std::to_string(i), bodies[i], "post" + bodies[i]);
		routing.add(R::Value("h" + std::to_string(i), h, h, h));
	}
	Running r;
	auto app = std::shared_ptr<HttpWebApp>(new R(std::move(routing)));
	const size_t workers = 1 + d.upto(3);
	r.start([&] (unsigned short port) { return std::make_shared<HttpServer>(systemClock(), "C", makeEndpoint(r.host, port), "w", workers, app, std::shared_ptr<WsWebApp>(), "http.server", "session", MimeTypes::defaultMimeTypes, false); });
	const size_t before = openSockets();
	struct Step { size_t handler; bool post, reconnect, useCookie; };
	std::vector<std::vector<Step>> plans(1 + d.upto(4));
	for (auto & p : plans) for (size_t n = 1 + d.upto(8); n > 0; --n) p.push_back({ d.upto(handlers - 1), d.boolean(), d.chance(1, 4), d.boolean() });
	const bool stopEarly = d.chance(1, 4);
	const unsigned pause = (unsigned) d.upto(3000);
	std::vector<std::string> failures(plans.size());
	std::vector<std::set<std::string>> ids(plans.size());
	std::atomic_bool stopping { false };
	std::vector<std::thread> threads;
	for (size_t t = 0; t < plans.size(); ++t) threads.emplace_back([&, t] {
		try {
			Connection c;
			bool open = false;
			std::string id;
			for (auto & s : plans[t]) {
				if (s.reconnect && open) { c.finish("in a client thread"); open = false; }
				if (!open) { if (!c.connect(r.host, r.port)) { if (stopping) return; FAIL("connection refused"); } open = true; }
				Ask a;
				a.target = "/h" + std::to_string(s.handler);
				if (s.post) { a.method = "POST"; a.body = "x"; }
				const bool cookie = s.useCookie && !id.empty();
				if (cookie) a.fields.emplace_back("Cookie", "session=" + id);
				c.send(a.text(r.host));
				Reply reply;
				if (stopEarly) {
					// Answers may be cut off, but not altered.
					try { if (!c.receive(reply, false, "")) return; } catch (const pbt::Failure & f) { if (f.message.find("ended inside") != std::string::npos) return; throw; }
				} else CHECK(c.receive(reply, false, "in a client thread"), "no answer");
				CHECK(reply.status == 200 && reply.header("content-type") == "text/t" + std::to_string(s.handler) && reply.body == (s.post ? "post" : "") + bodies[s.handler], "answer with status " << reply.status << " and "
					<< reply.body.size() << " bytes from " << reply.header("content-type") << " for " << a.show());
				const std::string now = sessionOf(reply, "session");
				if (cookie) CHECK(now == id, "session " << now << " instead of " << id); else { CHECK(ids[t].insert(now).second, "session " << now << " was given twice"); id = now; }
			}
			if (open && !stopEarly) c.finish("in a client thread");
		} catch (const pbt::Failure & f) { failures[t] = f.message; }
	});
	if (stopEarly) { usleep(pause); stopping = true; r.server->stop(); d.label("stopped early"); }
	for (auto & t : threads) t.join();
	for (auto & f : failures) CHECK(f.empty(), f);
	std::set<std::string> all;
	for (auto & s : ids) for (auto & i : s) CHECK(all.insert(i).second, "two clients were given the same session " << i);
	if (!stopEarly) checkReleased(before);
	r.server->stop();
	d.nontrivial(plans.size() > 1 && workers > 1);
}

///////////////////////////////////// Life cycle /////////////////////////////////////

PBT(life_cycle, 600, 6000, 0, 120) {
	silence();
	const std::string host = ownAddress();
	std::unique_ptr<Holder> holder(new Holder(host));
	const unsigned short port = holder->port;
	holder.reset();
	const size_t workers = d.pick<size_t>({ 0, 1, 2, 4 });
	auto server = std::make_shared<HttpServer>(systemClock(), "L", makeEndpoint(host, port), d.boolean() ? "life" : "", workers, canned("x"), std::shared_ptr<WsWebApp>(), "http.server", "session", MimeTypes::defaultMimeTypes, false);
	bool running = false;
	std::thread sync;
	std::vector<std::unique_ptr<Connection>> open;
	struct Stop { std::shared_ptr<HttpServer> & s; std::thread & t; ~Stop() { if (t.joinable()) { if (s) s->stop(); t.join(); } } } stop { server, sync };
	size_t starts = 0, refused = 0;
	for (size_t n = 4 + d.upto(12); n > 0; --n) {
		switch (d.weighted({ 4, 2, 3, 4, 2, 1 })) {
			case 0: // startAsync
				d.note("startAsync");
				if (holder && !running) {
					try { server->startAsync(); FAIL("a server was started on a port that is in use"); } catch (const Exception::NetworkException &) {}
					++refused;
				} else { server->startAsync(); if (!running) ++starts; running = true; }
				break;
			case 1: // startSync on another thread
				if (running || sync.joinable()) break;
				d.note("startSync");
				if (holder) {
					try { server->startSync(); FAIL("a server was started on a port that is in use"); } catch (const Exception::NetworkException &) {}
					++refused;
				} else {
					sync = std::thread([&server] { server->startSync(); });
					for (int i = 0; !server->isRunning(); ++i) { CHECK(i < Patience, "a synchronously started server is not running"); usleep(1000); }
					running = true; ++starts;
				}
				break;
			case 2:
				d.note("stop");
				server->stop();
				if (sync.joinable()) sync.join();
				if (running) {
					for (auto & c : open) {
						while (c->more("after the server was stopped")) {}
						CHECK(c->buffer.empty(), "bytes after the server was stopped");
					}
					open.clear();
				}
				running = false;
				break;
			case 3: {
				d.note("request");
				Connection c;
				const bool connected = c.connect(host, port);
				if (!running) { CHECK(!connected || holder, "a stopped server accepts connections"); break; }
				CHECK(connected, "a running server does not accept connections");
				Ask a;
				c.send(a.text(host));
				Reply reply;
				CHECK(c.receive(reply, false, "from a running server"), "no answer");
				CHECK(reply.status == 200 && reply.body == "get x", "status " << reply.status);
				if (d.boolean()) c.finish("after a request");
				break;
			}
			case 4:
				if (!running || open.size() > 3) break;
				d.note("open");
				open.emplace_back(new Connection);
				CHECK(open.back()->connect(host, port), "connection refused");
				if (d.boolean()) {
					Ask a;
					open.back()->send(a.text(host));
					Reply reply;
					CHECK(open.back()->receive(reply, false, "on a connection that stays open"), "no answer");
				}
				break;
			default:
				if (running) break;
				d.note(holder ? "release the port" : "occupy the port");
				if (holder) holder.reset();
				else {
					try {
						holder.reset(new Holder(host));
						holder->reset();
						holder->fd = socket(AF_INET, SOCK_STREAM, 0);
						sockaddr_in a = toSockaddr(host, port);
						int one = 1;
						setsockopt(holder->fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
						if (bind(holder->fd, (sockaddr *) &a, sizeof a) || listen(holder->fd, 16)) holder.reset();
					} catch (const pbt::Discard &) { holder.reset(); }
				}
		}
		CHECK(server->isRunning() == running, "isRunning is " << server->isRunning());
	}
	if (d.boolean() || sync.joinable()) { server->stop(); if (sync.joinable()) sync.join(); }
	server.reset(); // destroyed while running or stopped
	for (auto & c : open) while (c->more("after the server was destroyed")) {}
	Connection c;
	CHECK(holder || !c.connect(host, port), "a destroyed server accepts connections");
	d.nontrivial(starts > 1 || (starts && refused));
	if (workers == 0) d.label("a worker for each core");
}

} // namespace
