// P15: file URIs, their resolution, resources that read and write them, and string URIs, against a model of the directory tree.
#include "pbt.hpp"
#include "gen.hpp"
#include <Balau/Exception/BalauException.hpp>
#include <Balau/Util/Vectors.hpp>
#include <Balau/Resource/File.hpp>
#include <Balau/Resource/Http.hpp>
#include <Balau/Resource/StringUri.hpp>
#include <Balau/Resource/UriFromString.hpp>
#include <Balau/Resource/UriComponents.hpp>
#include <Balau/Resource/UriResolve.hpp>
#include <Balau/Util/Files.hpp>
#include <boost/algorithm/string.hpp>
#include <dirent.h>
#include <map>
#include <optional>

using namespace Balau;
using namespace Balau::Resource;

namespace {

// An independent lexical normaliser: components without "." and resolved "..".
std::string lexical(const std::string & path) {
	const bool absolute = !path.empty() && path[0] == '/';
	std::vector<std::string> out;
	std::string cur;
	auto flush = [&] {
		if (cur == ".." && !out.empty() && out.back() != "..") out.pop_back();
		else if (cur == ".." && absolute && out.empty()) {}
		else if (!cur.empty() && cur != ".") out.push_back(cur);
		cur.clear();
	};
	for (char c : path) if (c == '/') flush(); else cur += c;
	flush();
	std::string r = absolute ? "/" : "";
	for (size_t i = 0; i < out.size(); ++i) r += (i ? "/" : "") + out[i];
	return r;
}

const std::vector<std::string> names = { "a", "b", "c.txt", "d e", ".h", "é", "f.zip.x", "..." };

void wipe(const std::string & dir) {
	DIR * dp = opendir(dir.c_str());
	if (!dp) return;
	while (dirent * e = readdir(dp)) {
		const std::string n = e->d_name;
		if (n == "." || n == "..") continue;
		const std::string p = dir + "/" + n;
		struct stat s;
		if (lstat(p.c_str(), &s) == 0 && S_ISDIR(s.st_mode)) { wipe(p); rmdir(p.c_str()); } else unlink(p.c_str());
	}
	closedir(dp);
}

std::string read(const std::string & path) {
	std::ifstream f(path, std::ios::binary);
	std::stringstream s;
	s << f.rdbuf();
	return s.str();
}

void write(const std::string & path, const std::string & bytes) {
	std::ofstream f(path, std::ios::binary);
	f << bytes;
}

std::string content(pbt::Data & d) {
	switch (d.draw(3)) {
		case 0: return gen::bytes(d, 40);
		case 1: return gen::encode(gen::text32(d, 40));
		case 2: return "";
		default: { std::string one = gen::encode(gen::text32(d, 6)) + "\n", r; const size_t n = d.upto(3000); while (r.size() < n) r += one; return r; }
	}
}

// The model: directories and files below the scratch directory, by relative path; content for files.
struct Tree {
	std::map<std::string, std::optional<std::string>> entries;   // nothing for directories
	bool isDir(const std::string & p) const { auto i = entries.find(p); return p.empty() || (i != entries.end() && !i->second); }
	bool isFile(const std::string & p) const { auto i = entries.find(p); return i != entries.end() && i->second; }
	bool exists(const std::string & p) const { return p.empty() || entries.count(p); }
	bool hasChildren(const std::string & p) const {
		auto i = entries.upper_bound(p);
		for (; i != entries.end(); ++i) if (i->first.compare(0, p.size() + 1, p + "/") == 0) return true;
		return false;
	}
	static std::string parent(const std::string & p) { const size_t s = p.rfind('/'); return s == std::string::npos ? "" : p.substr(0, s); }
};

std::u32string readAll32(std::u32istream & s) {
	std::u32string r;
	char32_t c;
	while (s.get(c)) r += c;
	return r;
}

std::string readAll(std::istream & s) {
	std::string r;
	char c;
	while (s.get(c)) r += c;
	return r;
}

// Text without byte order marks (the text resources consume them), sometimes longer than the buffers of the resources.
std::u32string textOf(pbt::Data & d, size_t n) {
	std::u32string t = gen::text32(d, n);
	for (char32_t & c : t) if (c == 0xFEFF) c = U'x';
	if (!t.empty() && d.chance(1, 12)) {
		std::u32string r;
		const size_t want = d.upto(9000);
		while (r.size() < want) r += t;
		return r;
	}
	return t;
}

File makeFile(pbt::Data & d, const std::string & root, const std::string & rel) {
	const std::string full = rel.empty() ? root : root + "/" + rel;
	switch (d.draw(6)) {
		case 0: return File(full);
		case 1: return File(std::string_view(full));
		case 2: return File(full.c_str());
		case 3: return File(boost::filesystem::path(full));
		case 4: return rel.empty() ? File(root) : File(root, rel);
		case 5: return rel.empty() ? File(root) : File(File(root), rel);
		default: {
			File f(root);
			std::string cur;
			for (char c : rel + "/") if (c == '/') {
				if (!cur.empty()) switch (d.draw(3)) {
					case 0: f = f / cur; break;
					case 1: f /= cur; break;
					case 2: f = f.getSubDirectory(cur); break;
					default: f = f.getChildEntry(cur); break;
				}
				cur.clear();
			} else cur += c;
			return f;
		}
	}
}

std::string relPath(pbt::Data & d) {
	std::string r;
	const size_t n = 1 + d.upto(2);
	for (size_t i = 0; i < n; ++i) r += (i ? "/" : "") + names[d.weighted({ 6, 6, 3, 1, 1, 1, 1, 1 })];
	return r;
}

} // namespace

PBT(files, 6000, 200000) {
	const std::string root = gen::scratch() + "/files";
	wipe(root);
	mkdir(root.c_str(), 0700);
	Tree t;
	std::vector<std::pair<File, std::string>> kept;   // long lived file objects must not go stale
	const size_t steps = 1 + d.size(14);
	d.note("steps ", steps);
	size_t effective = 0;
	for (size_t step = 0; step < steps; ++step) {
		std::string rel = relPath(d);
		if (!kept.empty() && d.chance(1, 2)) rel = d.pick(kept).second;
		else if (!t.entries.empty() && d.boolean()) { auto i = t.entries.begin(); std::advance(i, d.upto(t.entries.size() - 1)); rel = i->first; }
		File f = makeFile(d, root, rel);
		if (d.chance(1, 3)) for (auto & k : kept) if (k.second == rel) { f = k.first; break; }
		const std::string full = root + "/" + rel;
		CHECK(f.toRawString() == full, "the path is " << f.toRawString() << ", not " << full);
		switch (d.draw(11)) {
			case 0: {   // Queries.
				d.note("query ", rel);
				const bool e = t.exists(rel);
				CHECK(f.exists() == e, "exists() is " << f.exists());
				CHECK(f.isRegularFile() == t.isFile(rel), "isRegularFile() is " << f.isRegularFile());
				CHECK(f.isRegularDirectory() == t.isDir(rel), "isRegularDirectory() is " << f.isRegularDirectory());
				CHECK(f.isIterable() == t.isDir(rel) && f.isRecursivelyIterable() == t.isDir(rel), "iterable");
				if (t.isFile(rel)) CHECK(f.size() == t.entries[rel]->size(), "size() is " << f.size());
				break;
			}
			case 1: {   // Directories.
				bool blocked = false, missing = false;
				for (std::string p = rel; !p.empty(); p = Tree::parent(p)) { if (t.isFile(p)) blocked = true; if (!t.exists(p)) missing = true; }
				d.note("create directories ", rel);
				bool created = false;
				try { created = f.createDirectories(); } catch (const boost::filesystem::filesystem_error &) { CHECK(blocked, "creation failed"); break; }
				if (blocked) { CHECK(t.isFile(rel) || !created, "created below a file"); break; }
				CHECK(created == missing, "createDirectories() is " << created);
				for (std::string p = rel; !p.empty(); p = Tree::parent(p)) if (!t.exists(p)) t.entries[p] = std::nullopt;
				++effective;
				break;
			}
			case 2: case 3: {   // Write bytes.
				const std::string bytes = content(d);
				const bool possible = !t.isDir(rel) && t.isDir(Tree::parent(rel));
				d.note("write ", rel, " ", bytes.size(), " bytes");
				try {
					switch (d.draw(2)) {
						case 0: { auto r = f.getByteWriteResource(); CHECK(r.getFile() == f && r.uri() == f, "uri of the resource"); r.writeStream() << bytes; if (d.boolean()) { r.close(); if (d.boolean()) r.close(); } break; }
						case 1: { std::unique_ptr<Uri> u = f.clone(); auto r = u->byteWriteResource(); r->writeStream() << bytes; break; }
						default: { auto r = f.getByteWriteResource(); auto r2(std::move(r)); r2.writeStream() << bytes; break; }
					}
				} catch (const Exception::FileNotFoundException &) { CHECK(!possible, "writing was refused"); break; }
				CHECK(possible, "an impossible path was written");
				t.entries[rel] = bytes;
				CHECK(read(full) == bytes, "the file holds " << pbt::show(read(full)));
				++effective;
				break;
			}
			case 4: {   // Write text.
				const std::u32string text = gen::text32(d, 60);
				const bool possible = !t.isDir(rel) && t.isDir(Tree::parent(rel));
				d.note("write text ", rel, " ", pbt::show(text));
				try {
					switch (d.draw(2)) {
						case 0: { auto r = f.getUtf32To8WriteResource(); r.writeStream() << text; if (d.boolean()) r.close(); break; }
						case 1: { std::unique_ptr<Uri> u = f.clone(); auto r = u->utf32To8WriteResource(); for (char32_t c : text) r->writeStream().put(c); break; }
						default: { auto r = f.getUtf32To8WriteResource(); auto r2(std::move(r)); r2.writeStream() << text; break; }
					}
				} catch (const Exception::FileNotFoundException &) { CHECK(!possible, "writing was refused"); break; }
				CHECK(possible, "an impossible path was written");
				t.entries[rel] = gen::encode(text);
				CHECK(read(full) == gen::encode(text), "the file holds " << pbt::show(read(full)));
				++effective;
				break;
			}
			case 5: case 6: {   // Read bytes.
				d.note("read ", rel);
				std::string got;
				bool regularOnly = false;   // the function refuses what is not a regular file
				try {
					switch (d.draw(3)) {
						case 0: { auto r = f.getByteReadResource(); CHECK(r.uri() == f && r.getFile() == f, "uri of the resource"); got = readAll(r.readStream()); if (d.boolean()) r.close(); break; }
						case 1: { std::unique_ptr<Uri> u = f.clone(); auto r = u->byteReadResource(); u.reset(); CHECK(r->uri() == f, "uri"); got = readAll(r->readStream()); break; }
						case 2: { auto r = f.getByteReadResource(); auto r2(std::move(r)); got = readAll(r2.readStream()); break; }
						default: {
							regularOnly = true;
							switch (d.draw(2)) {
								case 0: got = Util::Files::readToString(f); break;
								default: { auto v = Util::Files::readToVector(f); got = std::string(v.begin(), v.end()); break; }
							}
							break;
						}
					}
				} catch (const std::ios_base::failure &) {
					CHECK(t.isDir(rel), "reading failed");
					break;
				} catch (const Exception::NotFoundException &) {
					CHECK(!(regularOnly ? t.isFile(rel) : t.exists(rel)), "reading was refused");
					break;
				} catch (const Exception::BalauException &) {
					CHECK(!t.isFile(rel), "reading was refused");
					break;
				}
				CHECK(t.isFile(rel) || !regularOnly, "what is not a regular file was read");
				if (t.isFile(rel)) CHECK(got == *t.entries[rel], "read " << pbt::show(got.substr(0, 300)) << " instead of " << pbt::show(t.entries[rel]->substr(0, 300)));
				else CHECK(t.isDir(rel) && got.empty(), "a missing file was read");
				break;
			}
			case 7: {   // Read text that is well formed.
				if (!t.isFile(rel)) break;
				const std::u32string text = textOf(d, 60);
				write(full, gen::encode(text));
				t.entries[rel] = gen::encode(text);
				d.note("read text ", rel, " ", pbt::show(text));
				std::u32string got;
				switch (d.draw(2)) {
					case 0: { auto r = f.getUtf8To32ReadResource(); got = readAll32(r.readStream()); break; }
					case 1: { std::unique_ptr<Uri> u = f.clone(); auto r = u->utf8To32ReadResource(); u.reset(); CHECK(r->uri() == f, "uri"); got = readAll32(r->readStream()); break; }
					default: { auto r = f.getUtf8To32ReadResource(); auto r2(std::move(r)); got = readAll32(r2.readStream()); break; }
				}
				CHECK(got == text, "read " << pbt::show(got));
				++effective;
				break;
			}
			case 8: {   // Remove.
				d.note("remove ", rel);
				const bool blocked = t.isDir(rel) && t.hasChildren(rel);
				bool removed = false;
				try { removed = f.removeFile(); } catch (const boost::filesystem::filesystem_error &) {
					bool belowFile = false;
					for (std::string p = Tree::parent(rel); !p.empty(); p = Tree::parent(p)) if (t.isFile(p)) belowFile = true;
					CHECK(blocked || belowFile, "removal failed");
					break;
				}
				CHECK(!blocked, "a directory with contents was removed");
				CHECK(removed == t.exists(rel), "removeFile() is " << removed);
				if (removed) { t.entries.erase(rel); ++effective; }
				break;
			}
			case 9: case 10: {   // Iterate.
				std::string dir = d.chance(1, 3) ? std::string() : rel;
				File df = makeFile(d, root, dir);
				d.note("iterate ", dir);
				if (!t.isDir(dir)) {
					MUST_THROW(df.iterator(), Exception::NotImplementedException, "iterator of a plain file");
					MUST_THROW(df.recursiveIterator(), Exception::NotImplementedException, "recursive iterator of a plain file");
					break;
				}
				const bool recursive = d.boolean();
				std::multiset<std::string> got, expected;
				const std::string base = dir.empty() ? root : root + "/" + dir;
				for (auto & e : t.entries) {
					const std::string p = root + "/" + e.first;
					if (p.compare(0, base.size() + 1, base + "/") == 0 && (recursive || p.find('/', base.size() + 1) == std::string::npos)) expected.insert(p);
				}
				auto add = [&] (const Uri & u) {
					got.insert(u.toRawString());
					const std::string r = u.toRawString().substr(root.size() + 1);
					CHECK(u.isRegularFile() == t.isFile(r) && u.isRegularDirectory() == t.isDir(r), "kind of " << r);
				};
				if (d.boolean()) {
					if (recursive) { auto i = df.recursiveIterator(); while (i->hasNext()) add(*i->next()); }
					else { auto i = df.iterator(); while (i->hasNext()) add(*i->next()); }
				} else {
					if (recursive) { auto i = df.recursiveFileIterator(); while (i.hasNext()) add(i.next()); }
					else { auto i = df.fileIterator(); while (i.hasNext()) add(i.next()); }
				}
				CHECK(got == expected, "iterated " << got.size() << " entries instead of " << expected.size());
				if (!expected.empty()) ++effective;
				break;
			}
			default:   // Keep the object.
				kept.emplace_back(f, rel);
				break;
		}
	}
	for (auto & k : kept) CHECK(k.first.exists() == t.exists(k.second) && k.first.isRegularFile() == t.isFile(k.second) && k.first.isRegularDirectory() == t.isDir(k.second), "a file object is stale: " << k.second);
	// The tree on disk is the model.
	for (auto & e : t.entries) {
		struct stat s;
		CHECK(stat((root + "/" + e.first).c_str(), &s) == 0 && S_ISDIR(s.st_mode) == !e.second, "the directory tree differs at " << e.first);
		if (e.second) CHECK(read(root + "/" + e.first) == *e.second, "the contents differ at " << e.first);
	}
	d.nontrivial(effective >= 3);
	wipe(root);
	rmdir(root.c_str());
}

// Paths: no file system involved.
PBT(paths, 20000, 800000) {
	auto component = [&] { return names[d.upto(names.size() - 1)]; };
	std::string path = d.boolean() ? "/" : "";
	const size_t n = 1 + d.size(5);
	for (size_t i = 0; i < n; ++i) path += (i ? "/" : "") + component();
	d.note("path ", path);
	d.nontrivial(n > 1);
	const File f(path);
	CHECK(f.toRawString() == path && f.toUriString() == "file://" + path, "uri string " << f.toUriString());
	// Round trip through strings.
	{
		std::unique_ptr<Uri> u;
		fromString(u, d.boolean() ? f.toUriString() : path);
		CHECK(u && *u == f && u->toRawString() == path, "from string: " << u->toRawString());
		std::shared_ptr<Uri> s;
		fromString(s, f.toUriString());
		CHECK(*s == f && *u == *s && s->hashcode() == f.hashcode(), "from string: " << s->toRawString());
		std::shared_ptr<const Uri> sc;
		fromString(sc, "file:" + path);
		CHECK(*sc == f, "from string: " << sc->toRawString());
		File g;
		fromString(g, path);
		CHECK(g == f, "from string");
	}
	// Parents and children.
	const size_t slash = path.rfind('/');
	CHECK(f.getParentDirectory().toRawString() == (slash == std::string::npos ? "" : slash == 0 ? "/" : path.substr(0, slash)), "parent " << f.getParentDirectory().toRawString());
	const std::string c1 = component(), c2 = component();
	CHECK((f / c1).toRawString() == path + "/" + c1 && (f / c1).getParentDirectory() == f, "child");
	CHECK((f / c1.c_str() / std::string_view(c2)).toRawString() == path + "/" + c1 + "/" + c2, "child");
	CHECK((f / std::vector<std::string> { c1, c2 }).toRawString() == path + "/" + c1 + "/" + c2, "children");
	CHECK((f + "x").toRawString() == path + "x", "concatenation");
	std::unique_ptr<Uri> u = f.clone();
	CHECK((u / c1 / c2)->toRawString() == path + "/" + c1 + "/" + c2, "appended");
	CHECK((f == f / c1) == false && (f < f / c1) && !(f / c1 < f), "order");
	File moved(f), target;
	target = std::move(moved);
	CHECK(target == f, "moved");
	// Relative and absolute.
	char cwd[4096];
	CHECK(getcwd(cwd, sizeof cwd), "cwd");
	CHECK(f.toAbsolutePath().toRawString() == (path[0] == '/' ? path : std::string(cwd) + "/" + path), "absolute " << f.toAbsolutePath().toRawString());
	CHECK((f / c1 / c2).relative(f).toRawString() == c1 + "/" + c2, "relative " << (f / c1 / c2).relative(f).toRawString());
}

PBT(resolving, 12000, 400000) {
	const std::string root = gen::scratch() + "/resolving";
	mkdir(root.c_str(), 0700);
	mkdir((root + "/dir").c_str(), 0700);
	mkdir((root + "/dir/sub").c_str(), 0700);
	if (access((root + "/dir/file.txt").c_str(), F_OK)) write(root + "/dir/file.txt", "x");
	const std::string base = d.pick<std::string>({ root + "/dir", root + "/dir/sub", root + "/dir/file.txt", root + "/dir/missing.txt", "/no/such/dir/x.html", "no/such/x.html", "plain" });
	const bool isDir = base == root + "/dir" || base == root + "/dir/sub";
	const size_t slash = base.rfind('/');
	const std::string baseDir = isDir ? base : slash == std::string::npos ? std::string() : base.substr(0, slash);
	std::string rel;
	const size_t n = d.size(5);
	for (size_t i = 0; i < n; ++i) rel += (i ? "/" : "") + (d.chance(1, 3) ? std::string("..") : d.chance(1, 8) ? std::string(".") : names[d.upto(names.size() - 1)]);
	const size_t kind = d.draw(4);
	const bool absolute = kind == 1 || kind == 3;
	std::string arg;
	switch (kind) {
		case 0: arg = rel; break;
		case 1: arg = "/" + rel; break;
		case 2: arg = "file:" + (rel.empty() ? std::string("//") : rel); break;
		case 3: arg = "file:///" + rel; break;
		default: {
			const std::string url = d.pick<std::string>({ "http", "https" }) + "://h/" + std::string(1, (char) d.range('a', 'z'));
			auto r = UriResolve::resolve(File(base), url);
			CHECK(r && r->toUriString() == url, "another URI");
			return;
		}
	}
	if (d.chance(1, 6)) arg = " " + arg + " ";
	d.note("resolve ", pbt::show(arg), " against ", base);
	d.nontrivial(!rel.empty());
	const File f(base);
	std::unique_ptr<Uri> r = d.boolean() ? UriResolve::resolve(f, arg) : UriResolve::resolve(static_cast<const Uri &>(f), arg);
	CHECK(r && dynamic_cast<File *>(r.get()), "not a file");
	const std::string expected = absolute ? "/" + rel : baseDir.empty() ? rel : baseDir + "/" + rel;
	CHECK(lexical(r->toRawString()) == lexical(expected), "resolved to " << r->toRawString() << ", not " << lexical(expected));
	std::vector<std::string> parts;
	boost::split(parts, r->toRawString(), boost::is_any_of("/"));
	bool named = false;
	for (auto & p : parts) {
		if (!absolute && !rel.empty()) CHECK(p != ".." || !named, "not normalised: " << r->toRawString());
		named = named || (!p.empty() && p != ".." && p != ".");
	}
}

PBT(string_uris, 12000, 400000) {
	const std::u32string text = textOf(d, 50);
	std::string bytes = gen::encode(text);
	const bool whole = d.boolean();
	StringUri s(whole ? bytes : std::string());
	if (!whole) {
		std::u32string rest = text;
		while (!rest.empty()) {
			if (rest.size() > 500) { s.append(std::string_view(gen::encode(rest))); break; }
			switch (d.draw(2)) {
				case 0: s.append(rest[0]); rest.erase(0, 1); break;
				case 1: { const size_t k = 1 + d.upto(rest.size() - 1); s.append(std::string_view(gen::encode(rest.substr(0, k)))); rest.erase(0, k); break; }
				default: if (rest[0] < 0x80) s.append((char) rest[0]); else s.append(rest[0]); rest.erase(0, 1); break;
			}
		}
	}
	d.note("text ", pbt::show(text));
	d.nontrivial(text.size() > 2);
	CHECK(s.getString() == bytes && s.toRawString() == bytes && s.toUriString() == "string:", "the data is " << pbt::show(s.getString()));
	CHECK(s.canReadFrom() && !s.canWriteTo() && !s.isIterable() && !s.isRecursivelyIterable() && !s.isRegularFile() && !s.isRegularDirectory(), "capabilities");
	std::unique_ptr<Uri> u = s.clone();
	CHECK(*u == s && u->hashcode() == s.hashcode() && !(*u == StringUri(bytes + "x")) && !(*u == File("x")), "equality");
	switch (d.draw(3)) {
		case 0: { auto r = u->byteReadResource(); u.reset(); CHECK(readAll(r->readStream()) == bytes && r->uri() == s, "bytes"); break; }
		case 1: { auto r = u->utf8To32ReadResource(); u.reset(); CHECK(readAll32(r->readStream()) == text && r->uri() == s, "text"); break; }
		case 2: { auto r = s.getByteReadResource(); auto r2(std::move(r)); CHECK(readAll(r2.readStream()) == bytes, "bytes"); break; }
		default: { auto r = s.getUtf8To32ReadResource(); auto r2(std::move(r)); CHECK(readAll32(r2.readStream()) == text, "text"); break; }
	}
	MUST_THROW(UriResolve::resolve(s, "a/b"), Exception::IllegalArgumentException, "resolving against a string");
	MUST_THROW(static_cast<const Uri &>(s).append("a"), Exception::UnsupportedOperationException, "appending to a string uri");
}
