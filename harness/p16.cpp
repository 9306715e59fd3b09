// P16: zip archives: transactions of Zipper, reading with Unzipper and zip uris, damaged and encrypted archives,
// against a model of the entries, an independent reader and an independent writer of the archive format.
#include "pbt.hpp"
#include "gen.hpp"
#include <Balau/Exception/BalauException.hpp>
#include <Balau/Util/Vectors.hpp>
#include <Balau/Resource/File.hpp>
#include <Balau/Resource/Http.hpp>
#include <Balau/Resource/StringUri.hpp>
#include <Balau/Resource/UriFromString.hpp>
#include <Balau/Resource/UriComponents.hpp>
#include <Balau/Util/Zip.hpp>
#include <Balau/Resource/ZipEntry.hpp>
#include <Balau/Resource/ZipFile.hpp>
#include <Balau/Resource/UriResolve.hpp>
#include <map>
#include <optional>
#include <zlib.h>

using namespace Balau;
using namespace Balau::Resource;
using Exception::ZipException;

namespace {

using Entries = std::map<std::string, std::string>;

std::string slurp(const std::string & path) {
	std::ifstream f(path, std::ios::binary);
	std::stringstream s;
	s << f.rdbuf();
	return s.str();
}

void spit(const std::string & path, const std::string & bytes) {
	std::ofstream f(path, std::ios::binary | std::ios::trunc);
	f << bytes;
}

bool present(const std::string & path) { struct stat s; return stat(path.c_str(), &s) == 0; }

uint32_t crcOf(const std::string & bytes) { return (uint32_t) crc32(crc32(0, nullptr, 0), (const Bytef *) bytes.data(), (uInt) bytes.size()); }

// An independent reader of zip archives (no ZIP64, stored and deflated entries only).
struct Archive {
	Entries entries;
	std::string comment;
	size_t count = 0;

	static uint32_t le(const std::string & s, size_t at, size_t n) {
		CHECK(at + n <= s.size(), "the archive is malformed: truncated");
		uint32_t r = 0;
		for (size_t i = n; i > 0; --i) r = r << 8 | (unsigned char) s[at + i - 1];
		return r;
	}

	explicit Archive(const std::string & path) {
		const std::string s = slurp(path);
		const size_t end = s.rfind("PK\5\6");
		CHECK(end != std::string::npos, "the archive is malformed: no end record");
		count = le(s, end + 10, 2);
		comment = s.substr(end + 22, le(s, end + 20, 2));
		size_t at = le(s, end + 16, 4);
		for (size_t i = 0; i < count; ++i) {
			CHECK(le(s, at, 4) == 0x02014b50, "the archive is malformed: central directory");
			const uint32_t method = le(s, at + 10, 2), crc = le(s, at + 16, 4), csize = le(s, at + 20, 4), size = le(s, at + 24, 4);
			const uint32_t n = le(s, at + 28, 2), extra = le(s, at + 30, 2), com = le(s, at + 32, 2), local = le(s, at + 42, 4);
			const std::string name = s.substr(at + 46, n);
			CHECK(le(s, local, 4) == 0x04034b50, "the archive is malformed: local header");
			const size_t data = local + 30 + le(s, local + 26, 2) + le(s, local + 28, 2);
			CHECK(data + csize <= s.size(), "the archive is malformed: data");
			std::string bytes;
			if (method == 0) bytes = s.substr(data, csize);
			else {
				CHECK(method == 8, "unexpected compression method");
				bytes.resize(size + 1);
				z_stream z {};
				inflateInit2(&z, -15);
				z.next_in = (Bytef *) s.data() + data; z.avail_in = csize;
				z.next_out = (Bytef *) bytes.data(); z.avail_out = (uInt) bytes.size();
				const int rc = inflate(&z, Z_FINISH);
				bytes.resize(z.total_out);
				inflateEnd(&z);
				CHECK(rc == Z_STREAM_END, "the archive is malformed: compressed data");
			}
			CHECK(bytes.size() == size && crcOf(bytes) == crc, "the archive is malformed: size or crc of " << name);
			CHECK(!entries.count(name), "the archive has two entries " << name);
			entries[name] = bytes;
			at += 46 + n + extra + com;
		}
	}
};

// An independent writer: stored or deflated entries, comments, and traditional encryption.
struct Written { std::string name, data, comment; bool deflated = false; };

std::string put(uint32_t v, size_t n) { std::string r; while (n--) { r += (char) (v & 255); v >>= 8; } return r; }

std::string encrypted(const std::string & plain, const std::string & password, unsigned char check) {
	uint32_t k0 = 305419896, k1 = 591751049, k2 = 878082192;
	const z_crc_t * table = get_crc_table();
	auto update = [&] (unsigned char c) {
		k0 = table[(k0 ^ c) & 255] ^ (k0 >> 8);
		k1 = (k1 + (k0 & 255)) * 134775813 + 1;
		k2 = table[(k2 ^ (k1 >> 24)) & 255] ^ (k2 >> 8);
	};
	for (char c : password) update((unsigned char) c);
	std::string in = std::string("abcdefghijk") + (char) check + plain, out;
	for (char c : in) {
		const uint32_t t = (k2 | 2) & 0xffff;
		out += (char) ((unsigned char) c ^ (((t * (t ^ 1)) >> 8) & 255));
		update((unsigned char) c);
	}
	return out;
}

std::string archiveOf(const std::vector<Written> & ws, const std::string & comment, const std::string & password = "") {
	std::string out, dir;
	for (const auto & w : ws) {
		std::string body = w.data;
		if (w.deflated) {
			body.assign(compressBound((uLong) w.data.size()) + 32, '\0');
			z_stream z {};
			deflateInit2(&z, 6, Z_DEFLATED, -15, 8, Z_DEFAULT_STRATEGY);
			z.next_in = (Bytef *) w.data.data(); z.avail_in = (uInt) w.data.size();
			z.next_out = (Bytef *) body.data(); z.avail_out = (uInt) body.size();
			deflate(&z, Z_FINISH);
			body.resize(z.total_out);
			deflateEnd(&z);
		}
		const uint32_t crc = crcOf(w.data);
		const bool enc = !password.empty() && !(w.name.size() && w.name.back() == '/');
		if (enc) body = encrypted(body, password, (unsigned char) (crc >> 24));
		const std::string common = put(20, 2) + put(0x800 | (enc ? 1 : 0), 2) + put(w.deflated ? 8 : 0, 2) + put(0x6000, 2) + put(0x4a21, 2)
			+ put(crc, 4) + put((uint32_t) body.size(), 4) + put((uint32_t) w.data.size(), 4) + put((uint32_t) w.name.size(), 2);
		dir += "PK\1\2" + put(20, 2) + common + put(0, 2) + put((uint32_t) w.comment.size(), 2) + put(0, 2) + put(0, 2) + put(0, 4) + put((uint32_t) out.size(), 4) + w.name + w.comment;
		out += "PK\3\4" + common + put(0, 2) + w.name + body;
	}
	const size_t at = out.size();
	return out + dir + "PK\5\6" + put(0, 2) + put(0, 2) + put((uint32_t) ws.size(), 2) + put((uint32_t) ws.size(), 2) + put((uint32_t) dir.size(), 4) + put((uint32_t) at, 4) + put((uint32_t) comment.size(), 2) + comment;
}

const std::vector<std::string> parts = { "a", "b", "c.txt", "ab", "é", "x y", "ü-ж", "a.b" };

std::string fileName(pbt::Data & d) {
	std::string r;
	for (size_t n = d.weighted({ 4, 3, 1 }); n > 0; --n) r += parts[d.weighted({ 6, 4, 1, 2, 1, 1 })] + "/";
	return r + parts[d.weighted({ 6, 4, 2, 2, 1, 1, 1, 1 })];
}

std::string dirName(pbt::Data & d) {
	std::string r;
	for (size_t n = 1 + d.weighted({ 4, 3, 1 }); n > 0; --n) r += parts[d.weighted({ 6, 4, 1, 2, 1, 1 })] + "/";
	return r;
}

// The same name in another notation.
std::string noisy(pbt::Data & d, const std::string & name) {
	if (!d.chance(1, 5)) return name;
	std::string r;
	for (char c : name) r += c == '/' && d.chance(1, 2) ? (d.boolean() ? "//" : "///") : std::string(1, c);
	if (d.boolean()) r = (d.boolean() ? "/" : "//") + r;
	if (d.chance(1, 3)) r = " " + r;
	return r;
}

std::string content(pbt::Data & d) {
	switch (d.weighted({ 3, 2, 1, 2, 1 })) {
		case 0: return gen::bytes(d, 30);
		case 1: return gen::encode(gen::text32(d, 30));
		case 2: return "";
		case 3: { const std::string one = gen::bytes(d, 8) + "x"; std::string r; const size_t n = d.upto(6000); while (r.size() < n) r += one; return r; }
		default: {   // Incompressible.
			uint64_t s = d.draw(1u << 30) * 2 + 1;
			std::string r(d.upto(9000), '\0');
			for (char & c : r) { s = s * 6364136223846793005ULL + 1442695040888963407ULL; c = (char) (s >> 56); }
			return r;
		}
	}
}

void parents(Entries & m, const std::string & name) {
	for (size_t i = 0; i < name.size(); ++i) if (name[i] == '/') m.emplace(name.substr(0, i + 1), "");
}

std::string listed(const std::vector<std::string> & v) { std::string r; for (auto & e : v) r += pbt::show(e) + " "; return r; }
std::string listed(const Entries & v) { std::string r; for (auto & e : v) r += pbt::show(e.first) + ":" + std::to_string(e.second.size()) + " "; return r; }

// Strict UTF-8.
std::optional<std::u32string> decoded(const std::string & s) {
	std::u32string r;
	for (size_t i = 0; i < s.size(); ) {
		const unsigned char c = (unsigned char) s[i];
		const size_t n = c < 0x80 ? 0 : c >= 0xc2 && c < 0xe0 ? 1 : c >= 0xe0 && c < 0xf0 ? 2 : c >= 0xf0 && c < 0xf5 ? 3 : 9;
		if (n == 9 || i + n >= s.size()) return std::nullopt;
		char32_t v = n == 0 ? c : c & (0x3f >> n);
		for (size_t k = 1; k <= n; ++k) { if (((unsigned char) s[i + k] & 0xc0) != 0x80) return std::nullopt; v = v << 6 | ((unsigned char) s[i + k] & 0x3f); }
		if (v > 0x10ffff || (v >= 0xd800 && v < 0xe000)) return std::nullopt;
		r += v;
		i += n + 1;
	}
	return gen::encode(r) == s ? std::optional<std::u32string>(r) : std::nullopt;
}

bool isDir(const std::string & n) { return !n.empty() && n.back() == '/'; }

std::string under(const std::string & dir, const std::string & s) { return s.compare(0, dir.size(), dir) == 0 ? s.substr(dir.size()) : ""; }

// Everything that an unzipper says about an archive.
void readAll(pbt::Data & d, const Util::Unzipper & u, const Entries & m, const std::string & comment, const std::string & path) {
	CHECK(u.isOpen() && u.getPath().toRawString() == path, "the archive is not open");
	CHECK(u.readArchiveComment() == comment, "the comment is " << pbt::show(u.readArchiveComment()));
	CHECK(u.entryCount() == (long long) m.size(), u.entryCount() << " entries, not " << m.size());
	std::vector<std::string> names = u.entryNames();
	for (size_t i = 0; i < names.size(); ++i) CHECK(u.getEntryName((long long) i) == names[i] && u.getEntryIndex(noisy(d, names[i])) == (long long) i, "index " << i);
	std::sort(names.begin(), names.end());
	std::vector<std::string> expected;
	for (const auto & e : m) expected.push_back(e.first);
	CHECK(names == expected, "the names are " << listed(names));
	for (const auto & e : m) {
		const std::string name = noisy(d, e.first);
		CHECK(u.hasEntry(name), "no entry " << name);
		const long long index = u.getEntryIndex(name);
		Util::ZipEntryInfo info, info2;
		u.getEntryInfo(index, info);
		u.getEntryInfo(name, info2);
		CHECK(info == info2 && info.name == e.first && info.index == index && info.uncompressedSize == (long long) e.second.size() && info.crc == crcOf(e.second), "information about " << e.first);
		if (isDir(e.first)) continue;
		const std::vector<char> b = d.boolean() ? u.readEntryAsBytes(name) : u.readEntryAsBytes(index);
		CHECK(std::string(b.begin(), b.end()) == e.second, "the bytes of " << e.first << " are " << pbt::show(std::string(b.begin(), b.end()).substr(0, 200)));
		const std::string s = d.boolean() ? u.readEntryAsString(name) : u.readEntryAsString(index);
		CHECK(s == e.second, "the string of " << e.first << " is " << pbt::show(s.substr(0, 200)));
	}
	const std::string missing = d.boolean() ? fileName(d) : dirName(d);
	if (!m.count(missing)) {
		Util::ZipEntryInfo info;
		CHECK(!u.hasEntry(missing), "there is no " << missing);
		MUST_THROW(u.getEntryIndex(missing), ZipException, "index of a missing entry");
		MUST_THROW(u.getEntryInfo(missing, info), ZipException, "information about a missing entry");
		MUST_THROW(u.readEntryAsBytes(missing), ZipException, "bytes of a missing entry");
		MUST_THROW(u.readEntryAsString(missing), ZipException, "string of a missing entry");
		MUST_THROW(u.readEntryComment(missing), ZipException, "comment of a missing entry");
		const long long bad = d.boolean() ? (long long) m.size() + (long long) d.upto(3) : -1 - (long long) d.upto(3);
		MUST_THROW(u.getEntryInfo(bad, info), ZipException, "information about a bad index");
		MUST_THROW(u.getEntryName(bad), ZipException, "name of a bad index");
		MUST_THROW(u.readEntryAsBytes(bad), ZipException, "bytes of a bad index");
		MUST_THROW(u.readEntryAsString(bad), ZipException, "string of a bad index");
	}
}

std::string drain(std::istream & s) {
	std::string r;
	char c;
	while (s.get(c)) r += c;
	return s.bad() ? "<bad>" : r;
}

std::u32string drain32(std::u32istream & s) {
	std::u32string r;
	char32_t c;
	while (s.get(c)) r += c;
	return r;
}

// The largest memory allocation.
size_t largest = 0;
void onMalloc(const volatile void *, size_t n) { if (n > largest) largest = n; }
void onFree(const volatile void *) {}

} // namespace

#if defined(__SANITIZE_ADDRESS__)
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
static int hooked = __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
#endif

PBT(transactions, 2500, 120000) {
	const std::string path = gen::scratch() + "/t.zip";
	unlink(path.c_str());
	Entries committed, pending;
	std::string comment, pendingComment;
	std::optional<std::set<std::string>> open;   // the names touched in this transaction
	Util::Zipper z;
	size_t commits = 0, changes = 0;
	std::vector<std::string> tmp;
	const size_t steps = 1 + d.size(24);

	auto pickName = [&] (bool dir) {
		std::vector<std::string> c;
		for (auto & e : pending) if (isDir(e.first) == dir) c.push_back(e.first);
		if (!c.empty() && d.chance(2, 3)) return d.pick(c);
		return dir ? dirName(d) : fileName(d);
	};

	for (size_t step = 0; step < steps; ++step) {
		if (!open) {
			if (d.chance(1, 8)) {
				const size_t which = d.draw(5);
				d.note("closed ", which);
				switch (which) {
					case 0: MUST_THROW(z.putEntry("a", std::string("x")), ZipException, "putting into a closed archive"); break;
					case 1: MUST_THROW(z.putDirectory("a/"), ZipException, "putting into a closed archive"); break;
					case 2: MUST_THROW(z.entryNames(), ZipException, "names of a closed archive"); break;
					case 3: MUST_THROW(z.deleteEntry("a"), ZipException, "deleting in a closed archive"); break;
					case 4: MUST_THROW(z.renameEntry("a", "b"), ZipException, "renaming in a closed archive"); break;
					default: z.commit(); z.close(); CHECK(!z.isOpen(), "open"); break;
				}
			}
			d.note("open");
			if (d.boolean()) z.open(File(path), d.boolean()); else z.open(File(path), d.boolean(), "");
			CHECK(z.isOpen() && z.getPath().toRawString() == path, "not open");
			open.emplace();
			pending = committed;
			pendingComment = comment;
		}
		switch (d.weighted({ 8, 3, 4, 4, 1, 4, 2, 1, 2 })) {
			case 0: {
				const std::string name = pickName(false), given = noisy(d, name), data = content(d);
				d.note("put ", pbt::show(given), " ", data.size(), " ", pbt::show(data.substr(0, 40)));
				switch (d.draw(2)) {
					case 0: { std::string copy = data; z.putEntry(given, copy); std::fill(copy.begin(), copy.end(), '#'); break; }
					case 1: { std::vector<char> v(data.begin(), data.end()); z.putEntry(given, v); std::fill(v.begin(), v.end(), '#'); break; }
					default: {
						tmp.push_back(gen::scratch() + "/src" + std::to_string(tmp.size()));
						spit(tmp.back(), data);
						z.putEntry(given, File(tmp.back()));
						break;
					}
				}
				parents(pending, name);
				pending[name] = data;
				open->insert(name);
				++changes;
				break;
			}
			case 1: {
				const std::string name = d.chance(1, 10) ? std::string("/") : pickName(true), given = name == "/" ? d.pick<std::string>({ "", "/", "//" }) : noisy(d, name);
				d.note("directory ", pbt::show(given));
				z.putDirectory(given);
				if (name != "/") { parents(pending, name); open->insert(name); }
				++changes;
				break;
			}
			case 2: {
				const bool dir = d.chance(1, 3);
				const std::string name = pickName(dir), given = noisy(d, name);
				d.note("delete ", pbt::show(given));
				bool any = false;
				for (auto & e : pending) any = any || (dir ? e.first.compare(0, name.size(), name) == 0 : e.first == name);
				if (!any && dir) break;
				if (!any) { MUST_THROW(z.deleteEntry(given), ZipException, "deleting a missing entry"); break; }
				z.deleteEntry(given);
				for (auto i = pending.begin(); i != pending.end(); )
					if (dir ? i->first.compare(0, name.size(), name) == 0 : i->first == name) { open->insert(i->first); i = pending.erase(i); } else ++i;
				++changes;
				break;
			}
			case 3: {
				const bool dir = d.chance(1, 3);
				const std::string from = pickName(dir), to = dir ? dirName(d) : d.chance(1, 4) ? pickName(false) : fileName(d);
				d.note("rename ", pbt::show(from), " to ", pbt::show(to));
				if (d.chance(1, 10)) {
					const std::string wrong = dir ? to.substr(0, to.size() - 1) : to + "/";
					MUST_THROW(z.renameEntry(from, wrong), ZipException, "renaming to another kind of entry");
					break;
				}
				Entries moved, rest;
				for (auto & e : pending) {
					if (dir ? e.first.compare(0, from.size(), from) == 0 : e.first == from) moved[to + e.first.substr(from.size())] = e.second;
					else rest.insert(e);
				}
				if (moved.empty() && dir) break;
				if (moved.empty()) { MUST_THROW(z.renameEntry(noisy(d, from), to), ZipException, "renaming a missing entry"); break; }
				bool clash = false;
				for (auto & e : moved) clash = clash || rest.count(e.first);
				const bool nested = dir && from != to && (to.compare(0, from.size(), from) == 0 || from.compare(0, to.size(), to) == 0);
				if ((clash && dir) || nested) {
					// May be done in part: the transaction is abandoned, and must leave no trace.
					try { z.renameEntry(from, to); } catch (const ZipException &) {}
					z.close();
					open.reset();
					if (committed.empty()) CHECK(!present(path), "an abandoned transaction made a file");
					else { Archive a(path); CHECK(a.entries == committed && a.comment == comment, "an abandoned transaction changed the archive"); }
					break;
				}
				if (clash) { MUST_THROW(z.renameEntry(from, to), ZipException, "renaming to an existing entry"); break; }
				z.renameEntry(noisy(d, from), noisy(d, to));
				for (auto & e : pending) open->insert(e.first);
				pending = rest;
				pending.insert(moved.begin(), moved.end());
				++changes;
				break;
			}
			case 4: {
				if (d.chance(1, 3)) { z.deleteComment(); pendingComment.clear(); d.note("delete comment"); }
				else { pendingComment = d.pick<std::string>({ "c", "é", "ж", "" }) + gen::ident(d, 12); z.putArchiveComment(pendingComment); d.note("comment ", pbt::show(pendingComment)); }
				break;
			}
			case 5: {
				d.note("commit");
				z.commit();
				CHECK(!z.isOpen(), "open after the commit");
				open.reset();
				committed = pending;
				comment = committed.empty() ? "" : pendingComment;
				++commits;
				if (committed.empty()) {
					if (present(path)) { Archive a(path); CHECK(a.entries.empty(), "entries in an empty archive"); unlink(path.c_str()); }
					break;
				}
				Archive a(path);
				CHECK(a.comment == comment, "the comment committed is " << pbt::show(a.comment) << ", not " << pbt::show(comment));
				CHECK(a.entries == committed, "the archive holds " << listed(a.entries));
				Util::Unzipper u;
				u.open(File(path), true);
				readAll(d, u, committed, comment, path);
				if (d.boolean()) { u.close(); CHECK(!u.isOpen(), "open"); }
				break;
			}
			case 6: {
				d.note("close");
				if (d.boolean()) z.close(); else z.open(File(gen::scratch() + "/other.zip"), false);
				z.close();
				open.reset();
				if (committed.empty()) CHECK(!present(path), "an abandoned transaction made a file");
				else { Archive a(path); CHECK(a.entries == committed && a.comment == comment, "an abandoned transaction changed the archive"); }
				break;
			}
			case 7: {
				const std::string name = fileName(d);
				d.note("bad names");
				MUST_THROW(z.putDirectory(name), ZipException, "directory name without a slash");
				MUST_THROW(z.putEntry(name + "/" + (d.boolean() ? "" : " "), std::string("x")), ZipException, "file name with a trailing slash");
				break;
			}
			default: {   // Entries that this transaction has not touched are read from the original archive.
				for (auto & e : committed) if (!open->count(e.first) && !isDir(e.first)) {
					const std::vector<char> b = z.readEntryAsBytes(e.first);
					CHECK(std::string(b.begin(), b.end()) == e.second, "the original bytes of " << e.first);
					CHECK(z.hasEntry(e.first), "has no " << e.first);
				}
				break;
			}
		}
	}
	d.nontrivial(commits > 0 && changes > 2);
	z.close();
	if (committed.empty()) CHECK(!present(path), "an abandoned transaction made a file");
	else { Archive a(path); CHECK(a.entries == committed, "the archive changed after the last commit"); }
	unlink(path.c_str());
	for (auto & t : tmp) unlink(t.c_str());
}

PBT(reading, 6000, 250000) {
	const std::string path = gen::scratch() + "/r.zip";
	Entries m;
	std::vector<Written> ws;
	const size_t n = d.size(8);
	for (size_t i = 0; i < n; ++i) {
		Written w;
		w.name = d.chance(1, 4) ? dirName(d) : fileName(d);
		if (m.count(w.name)) continue;
		if (!isDir(w.name)) { w.data = content(d); w.deflated = d.boolean(); }
		if (d.chance(1, 4)) { w.comment = gen::ident(d, 8); }
		m[w.name] = w.data;
		ws.push_back(w);
		d.note(w.deflated ? "deflated " : "stored ", pbt::show(w.name), " ", w.data.size(), " ", pbt::show(w.data.substr(0, 40)));
	}
	if (ws.empty()) d.discard();
	d.nontrivial(ws.size() > 1);
	const std::string comment = d.chance(1, 3) ? gen::ident(d, 8) : "";
	const std::string password = d.chance(1, 3) ? gen::ident(d, 8) : "";
	if (!password.empty()) d.note("password ", pbt::show(password));
	spit(path, archiveOf(ws, comment, password));

	{
		Util::Unzipper u;
		if (d.boolean()) u.open(File(path), true, password);
		else { u.open(File(path), false); u.open(File(path), false, password); }
		readAll(d, u, m, comment, path);
		for (auto & w : ws) CHECK(u.readEntryComment(noisy(d, w.name)) == w.comment && u.readEntryComment(u.getEntryIndex(w.name)) == w.comment, "the comment of " << w.name);
	}

	// The uris of the file and its entries.
	ZipFile file = d.boolean() ? ZipFile(File(path), password) : ZipFile(ZipFile(File(path), password));
	CHECK(file.isIterable() && file.isRecursivelyIterable() && !file.canReadFrom() && !file.canWriteTo(), "capabilities");
	Entries got;
	auto entry = [&] (ZipEntry & e) {
		const std::string name = e.name();
		CHECK(m.count(name), "an unknown entry " << name);
		CHECK(!got.count(name), "an entry twice " << name);
		const Written & w = *std::find_if(ws.begin(), ws.end(), [&] (auto & x) { return x.name == name; });
		CHECK(e.isEntryDirectory() == isDir(name) && e.isEntryFile() != isDir(name) && e.size() == w.data.size() && e.readEntryComment() == w.comment, "properties of " << name);
		CHECK(e.toUriString() == File(path).toUriString() + "#" + name, "the uri is " << e.toUriString());
		CHECK(e.canReadFrom() && !e.canWriteTo() && !e.isIterable() && !e.isRecursivelyIterable(), "capabilities");
		std::unique_ptr<Uri> c = e.clone();
		CHECK(*c == e && c->hashcode() == e.hashcode() && !(e == File(path)), "equality of " << name);
		if (isDir(name)) { got[name] = ""; return; }
		switch (d.draw(5)) {
			case 0: got[name] = e.readEntryAsString(); break;
			case 1: { auto v = e.readEntryAsBytes(); got[name] = std::string(v.begin(), v.end()); break; }
			case 2: { auto r = e.getByteReadResource(); got[name] = drain(r.readStream()); break; }
			case 3: { auto r = c->byteReadResource(); c.reset(); got[name] = drain(r->readStream()); CHECK(r->uri() == e, "uri"); break; }
			default: {
				if (w.data.find("\xEF\xBB\xBF") != std::string::npos) { got[name] = w.data; break; }
				const std::optional<std::u32string> decodedText = decoded(w.data);
				if (!decodedText) { got[name] = w.data; break; }
				const std::u32string & t = *decodedText;
				if (d.boolean()) { auto r = c->utf8To32ReadResource(); c.reset(); CHECK(drain32(r->readStream()) == t && r->uri() == e, "the text of " << name); }
				else { auto r = e.getUtf8To32ReadResource(); auto r2(std::move(r)); CHECK(drain32(r2.readStream()) == t, "the text of " << name); }
				got[name] = w.data;
				break;
			}
		}
	};
	auto resolving = [&] (ZipEntry & e) {
		// Resolving against an entry: paths relative to its directory.
		const std::string base = e.name(), target = d.pick(ws).name;
		const std::string baseDir = base.substr(0, base.rfind('/') == std::string::npos ? 0 : base.rfind('/') + 1);
		std::string arg;
		if (d.chance(1, 3)) arg = "/" + target;
		else {
			// Climb out of directories that are not shared, and sometimes of more.
			size_t common = 0;
			for (size_t i = 0; i < baseDir.size() && i < target.size() && baseDir[i] == target[i]; ++i) if (baseDir[i] == '/') common = i + 1;
			if (common == target.size()) return;
			if (d.chance(1, 4)) common = 0;
			for (size_t i = common; i < baseDir.size(); ++i) if (baseDir[i] == '/') arg += "../";
			if (d.chance(1, 6)) arg += "./";
			arg += target.substr(common);
		}
		d.note("resolve ", pbt::show(arg), " against ", pbt::show(base));
		std::unique_ptr<Uri> r = d.boolean() ? UriResolve::resolve(e, arg) : UriResolve::resolve(static_cast<const Uri &>(e), arg);
		CHECK(r && dynamic_cast<ZipEntry *>(r.get()) && dynamic_cast<ZipEntry *>(r.get())->name() == target, "resolved to " << (r ? r->toUriString() : "nothing"));
		CHECK(UriResolve::resolve(e, "http://h/x")->toUriString() == "http://h/x", "another uri");
		const std::string missing = fileName(d);
		if (!m.count(missing)) MUST_THROW(UriResolve::resolve(e, "/" + missing), ZipException, "resolving a missing entry");
	};
	const size_t which = d.draw(2);
	if (which == 0) {
		auto it = file.recursiveZipFileIterator(d.boolean(), password);
		while (it.hasNext()) { ZipEntry e = it.next(); entry(e); if (d.chance(1, 2)) resolving(e); }
	} else {
		std::unique_ptr<Uri> c = file.clone();
		auto it = which == 1 ? c->recursiveIterator() : file.recursiveIterator();
		c.reset();
		while (it->hasNext()) {
			auto e = it->next();
			CHECK(e && dynamic_cast<ZipEntry *>(e.get()), "not an entry");
			entry(dynamic_cast<ZipEntry &>(*e));
			if (d.chance(1, 2)) resolving(dynamic_cast<ZipEntry &>(*e));
		}
	}
	CHECK(got == m, "the entries differ");

	// A password that is wrong or missing gives no data.
	if (!password.empty()) {
		const std::string wrong = d.boolean() ? "" : password + "x";
		Util::Unzipper u;
		u.open(File(path), false, wrong);
		for (auto & e : m) if (!isDir(e.first)) {
			try {
				auto v = u.readEntryAsBytes(e.first);
				CHECK(std::string(v.begin(), v.end()) == e.second, "data was read with the wrong password");
			} catch (const ZipException &) {}
		}
	}
}

PBT(resolving_files, 3000, 100000) {
	std::string base;
	for (size_t n = d.upto(3); n > 0; --n) base += "/" + d.pick(parts);
	base += "/z.zip";
	std::string rel;
	const size_t n = 1 + d.upto(3);
	for (size_t i = 0; i < n; ++i) rel += (i ? "/" : "") + (i + 1 < n && d.chance(1, 3) ? std::string("..") : d.pick(parts));
	const bool absolute = d.chance(1, 3);
	d.note("resolve ", rel, absolute ? " absolute" : "", " against ", base);
	d.nontrivial(rel.find("..") != std::string::npos);
	const ZipFile f((File(base)));
	const std::string arg = (absolute ? "/" : "") + rel;
	auto r = d.boolean() ? UriResolve::resolve(f, arg) : UriResolve::resolve(static_cast<const Uri &>(f), arg);
	CHECK(r && dynamic_cast<ZipFile *>(r.get()), "not a zip file");
	std::vector<std::string> stack;
	std::string cur;
	for (char c : (absolute ? arg : base.substr(0, base.rfind('/') + 1) + rel) + "/") {
		if (c != '/') { cur += c; continue; }
		if (cur == "..") { if (!stack.empty()) stack.pop_back(); } else if (!cur.empty()) stack.push_back(cur);
		cur.clear();
	}
	std::string expected;
	for (auto & s : stack) expected += "/" + s;
	std::string raw = r->toRawString();
	while (raw.compare(0, 4, "/../") == 0) raw.erase(0, 3);
	if (absolute && arg.find("..") != std::string::npos) return;   // absolute paths are kept as they are
	CHECK(raw == expected, "resolved to " << r->toRawString() << ", not " << expected);
}

PBT(damaged, 8000, 400000) {
	const std::string path = gen::scratch() + "/d.zip";
	std::vector<Written> ws;
	std::set<std::string> seen;
	const size_t n = 1 + d.size(3);
	for (size_t i = 0; i < n; ++i) {
		Written w;
		w.name = d.chance(1, 6) ? dirName(d) : fileName(d);
		if (!seen.insert(w.name).second) continue;
		if (!isDir(w.name)) { w.data = content(d); w.deflated = d.boolean(); }
		ws.push_back(w);
	}
	const std::string password = d.chance(1, 5) ? "pw" : "";
	const std::string good = archiveOf(ws, d.chance(1, 4) ? "comment" : "", password);
	std::string bad = good;
	const size_t faults = 1 + d.upto(2);
	for (size_t i = 0; i < faults && !bad.empty(); ++i) {
		switch (d.weighted({ 6, 1, 2, 3 })) {
			case 0: bad[d.upto(bad.size() - 1)] = (char) d.draw(255); break;
			case 1: bad.resize(d.upto(bad.size() - 1)); break;
			case 2: { const size_t at = d.upto(bad.size() - 1); bad.erase(at, 1 + d.upto(8)); break; }
			default: {   // A field of a header.
				static const std::vector<std::string> marks = { "PK\1\2", "PK\3\4", "PK\5\6" };
				const size_t at = bad.find(d.pick(marks));
				if (at == std::string::npos) break;
				const size_t o = at + 4 + d.upto(42), k = 1 + d.upto(3);
				for (size_t j = 0; j < k && o + j < bad.size(); ++j) bad[o + j] = d.boolean() ? '\xff' : (char) d.draw(255);
				break;
			}
		}
	}
	spit(path, bad);
	d.nontrivial(bad != good);
	std::string hex;
	for (unsigned char c : bad.substr(0, 600)) { char b[4]; snprintf(b, sizeof b, "%02x", c); hex += b; }
	d.note("archive of ", bad.size(), " bytes ", hex);
	Util::Unzipper u;
	try {
		u.open(File(path), d.boolean(), password);
	} catch (const ZipException &) {
		CHECK(bad != good, "a good archive was refused");
		CHECK(!u.isOpen(), "open after a failure");
		MUST_THROW(u.entryNames(), ZipException, "names of an archive that is not open");
		return;
	}
	std::vector<std::string> names;
	try { names = u.entryNames(); u.readArchiveComment(); } catch (const ZipException &) { CHECK(bad != good, "a good archive was refused"); return; }
	for (size_t i = 0; i < names.size(); ++i) {
		largest = 0;
		try {
			Util::ZipEntryInfo info;
			u.getEntryInfo((long long) i, info);
			u.readEntryComment((long long) i);
			std::string got;
			switch (d.draw(3)) {
				case 0: { auto v = u.readEntryAsBytes((long long) i); got = std::string(v.begin(), v.end()); break; }
				case 1: got = u.readEntryAsString((long long) i); break;
				default: {
					ZipFile f(File(path), password);
					auto it = f.recursiveIterator();
					for (size_t k = 0; k < i; ++k) it->next();
					auto e = it->next();
					auto r = e->byteReadResource();
					got = drain(r->readStream());
					if (got == "<bad>" || (long long) got.size() < info.uncompressedSize) continue;
					break;
				}
			}
			CHECK((long long) got.size() == info.uncompressedSize, got.size() << " bytes of " << info.uncompressedSize << " were read");
			CHECK(got.empty() || crcOf(got) == info.crc, "damaged data was read: " << pbt::show(got.substr(0, 100)));
		} catch (const ZipException &) {
			CHECK(bad != good, "a good archive was refused");
		}
		CHECK(largest < (64u << 20), "an archive of " << bad.size() << " bytes caused an allocation of " << largest);
	}
}
