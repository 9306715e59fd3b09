// P26: GZip, the hash functions and reading files.
#include <Balau/Exception/BalauException.hpp>
#include <Balau/Util/Vectors.hpp>
#include <Balau/Resource/File.hpp>
#include <Balau/Util/Compression.hpp>
#include <Balau/Util/Files.hpp>
#include <Balau/Util/Hashing.hpp>
#include <Balau/ThirdParty/HashLibrary/hmac.h>
#include "gen.hpp"
#include <filesystem>
#include <openssl/evp.h>
#include <openssl/hmac.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <zlib.h>

using namespace Balau;
using namespace Balau::Util;

namespace {

std::string hex(const std::string & s) {
	std::string r;
	char b[3];
	for (unsigned char c : s) { snprintf(b, 3, "%02x", c); r += b; }
	return r;
}

struct Folder {
	std::string path = gen::scratch() + "/f" + std::to_string(getpid());
	Folder() { std::filesystem::create_directories(path); }
	~Folder() { std::error_code c; std::filesystem::remove_all(path, c); }
};

std::string slurp(const std::string & p) { std::ifstream in(p, std::ios::binary); std::stringstream s; s << in.rdbuf(); return s.str(); }
void spit(const std::string & p, const std::string & s) { std::ofstream(p, std::ios::binary | std::ios::trunc) << s; }

std::string content(pbt::Data & d, size_t block) {
	size_t n;
	switch (d.upto(5)) {
		case 0: n = d.upto(10); break;
		case 1: n = block * d.range(1, 4) + d.upto(6); n -= std::min<size_t>(n, d.upto(6)); break;
		case 2: n = d.chance(1, 20) ? d.range(50000, 1200000) : d.upto(20000); break;
		default: n = d.upto(400); break;
	}
	const uint64_t seed = d.draw(UINT64_MAX);
	const int kind = (int) d.upto(3);
	std::string s(n, '\0');
	uint64_t x = seed | 1;
	for (size_t k = 0; k < n; ++k) {
		x ^= x << 13; x ^= x >> 7; x ^= x << 17;
		s[k] = kind == 0 ? (char) x : kind == 1 ? (char) ('a' + x % 3) : kind == 2 ? (char) (seed & 0xff) : (char) (x % 5 ? "line of text\n"[k % 13] : (char) x);
	}
	d.note(std::to_string(n) + " bytes of kind " + std::to_string(kind));
	if (n > 64) d.nontrivial();
	return s;
}

// zlib in gzip mode.
std::string unzip(const std::string & z) {
	std::string r;
	size_t at = 0;
	while (at < z.size()) {
		z_stream s {};
		CHECK(inflateInit2(&s, 31) == Z_OK, "inflateInit2");
		s.next_in = (Bytef *) z.data() + at; s.avail_in = (uInt) (z.size() - at);
		std::vector<char> buffer(1 << 16);
		int rc;
		do {
			s.next_out = (Bytef *) buffer.data(); s.avail_out = (uInt) buffer.size();
			rc = inflate(&s, Z_NO_FLUSH);
			CHECK(rc == Z_OK || rc == Z_STREAM_END, "the output is not a gzip file: " << rc << " after " << r.size() << " bytes");
			r.append(buffer.data(), buffer.size() - s.avail_out);
		} while (rc != Z_STREAM_END);
		at = z.size() - s.avail_in;
		inflateEnd(&s);
	}
	return r;
}

std::string zip(pbt::Data & d, const std::string & text) {
	z_stream s {};
	CHECK(deflateInit2(&s, (int) d.upto(9), Z_DEFLATED, 31, (int) d.range(1, 9), (int) d.upto(4)) == Z_OK, "deflateInit2");
	gz_header header {};
	std::string name = "name", comment = "comment", extra = "extra bytes";
	if (d.boolean()) {
		header.time = d.draw(UINT32_MAX); header.os = 3; header.text = d.boolean(); header.hcrc = 0;
		if (d.boolean()) header.name = (Bytef *) name.data();
		if (d.boolean()) header.comment = (Bytef *) comment.data();
		if (d.boolean()) { header.extra = (Bytef *) extra.data(); header.extra_len = (uInt) extra.size(); }
		deflateSetHeader(&s, &header);
	}
	std::string r(deflateBound(&s, text.size()) + 100, '\0');
	s.next_in = (Bytef *) text.data(); s.avail_in = (uInt) text.size();
	s.next_out = (Bytef *) r.data(); s.avail_out = (uInt) r.size();
	CHECK(deflate(&s, Z_FINISH) == Z_STREAM_END, "deflate");
	r.resize(r.size() - s.avail_out);
	deflateEnd(&s);
	return r;
}

std::string readAll(pbt::Data & d, std::istream & in) {
	std::string r;
	switch (d.upto(2)) {
		case 0: { std::stringstream s; s << in.rdbuf(); return s.str(); }
		case 1: { std::vector<char> b(d.range(1, 5000)); while (in.read(b.data(), (std::streamsize) b.size()) || in.gcount()) r.append(b.data(), (size_t) in.gcount()); return r; }
		default: { std::string l; while (std::getline(in, l)) { r += l; if (!in.eof()) r += '\n'; } return r; }
	}
}

} // namespace

PBT(gzip, 700, 20000) {
	Folder folder;
	const std::string text = content(d, 4096);
	const std::string plain = folder.path + "/plain", zipped = folder.path + "/data.gz", out = folder.path + "/out";
	const Resource::File plainFile(plain), zippedFile(zipped), outFile(out);
	if (d.boolean()) spit(zipped, std::string(d.upto(100000), 'o')); // an old, maybe longer file
	if (d.boolean()) spit(out, std::string(d.upto(100000), 'o'));
	const int how = (int) d.upto(3);
	switch (how) {
		case 0: spit(plain, text); GZip::gzip(plainFile, zippedFile); CHECK(slurp(plain) == text, "the input file changed"); d.label("gzip file"); break;
		case 1: GZip::gzip(text, zippedFile); d.label("gzip string"); break;
		case 2: { std::istringstream in(text); GZip::gzip(in, zippedFile); d.label("gzip stream"); break; }
		default: {
			// Files written by others, with several members.
			std::string z;
			size_t at = 0;
			for (size_t n = d.upto(2); n--; ) { const size_t l = d.upto(text.size() - at); z += zip(d, text.substr(at, l)); at += l; }
			spit(zipped, z + zip(d, text.substr(at)));
			d.label("foreign file");
			break;
		}
	}
	const std::string before = slurp(zipped);
	if (how < 3) CHECK(unzip(before) == text, "zlib reads something else from the gzip file");
	switch (d.upto(2)) {
		case 0: GZip::gunzip(zippedFile, outFile); CHECK(slurp(out) == text, "gunzip to a file"); d.label("gunzip file"); break;
		case 1: { std::string s = "old"; GZip::gunzip(zippedFile, s); CHECK(s == text, "gunzip to a string"); d.label("gunzip string"); break; }
		default: { std::unique_ptr<std::istream> s; GZip::gunzip(zippedFile, s); CHECK(readAll(d, *s) == text, "gunzip to a stream"); d.label("gunzip stream"); break; }
	}
	CHECK(slurp(zipped) == before, "the gzip file changed");
}

namespace {

// Keccak, from its specification.
std::string keccak(const std::string & m, size_t bits, uint8_t suffix) {
	uint8_t state[200] {};
	auto rol = [] (uint64_t x, unsigned n) { n %= 64; return n ? (x << n) | (x >> (64 - n)) : x; };
	auto permute = [&] {
		uint64_t a[5][5];
		for (int y = 0; y < 5; ++y) for (int x = 0; x < 5; ++x) { a[x][y] = 0; for (int k = 0; k < 8; ++k) a[x][y] |= (uint64_t) state[8 * (x + 5 * y) + k] << (8 * k); }
		uint8_t lfsr = 1;
		for (int round = 0; round < 24; ++round) {
			uint64_t c[5];
			for (int x = 0; x < 5; ++x) c[x] = a[x][0] ^ a[x][1] ^ a[x][2] ^ a[x][3] ^ a[x][4];
			for (int x = 0; x < 5; ++x) for (int y = 0; y < 5; ++y) a[x][y] ^= c[(x + 4) % 5] ^ rol(c[(x + 1) % 5], 1);
			int x = 1, y = 0;
			uint64_t current = a[x][y];
			for (unsigned t = 0; t < 24; ++t) { const int ny = (2 * x + 3 * y) % 5; x = y; y = ny; std::swap(current, a[x][y]); a[x][y] = rol(a[x][y], (t + 1) * (t + 2) / 2); }
			for (int yy = 0; yy < 5; ++yy) { uint64_t r[5]; for (int xx = 0; xx < 5; ++xx) r[xx] = a[xx][yy]; for (int xx = 0; xx < 5; ++xx) a[xx][yy] = r[xx] ^ (~r[(xx + 1) % 5] & r[(xx + 2) % 5]); }
			for (unsigned j = 0; j < 7; ++j) { if (lfsr & 1) a[0][0] ^= (uint64_t) 1 << ((1u << j) - 1); lfsr = (uint8_t) ((lfsr << 1) ^ ((lfsr >> 7) * 0x71)); }
		}
		for (int y = 0; y < 5; ++y) for (int x = 0; x < 5; ++x) for (int k = 0; k < 8; ++k) state[8 * (x + 5 * y) + k] = (uint8_t) (a[x][y] >> (8 * k));
	};
	const size_t rate = 200 - bits / 4;
	size_t at = 0;
	for (unsigned char c : m) { state[at++] ^= c; if (at == rate) { permute(); at = 0; } }
	state[at] ^= suffix;
	state[rate - 1] ^= 0x80;
	permute();
	return hex(std::string((char *) state, bits / 8));
}

std::string openssl(const EVP_MD * md, const std::string & m) {
	unsigned char out[EVP_MAX_MD_SIZE];
	unsigned n = 0;
	EVP_Digest(m.data(), m.size(), out, &n, md, nullptr);
	return hex(std::string((char *) out, n));
}

std::string crc(const std::string & m) {
	char b[9];
	snprintf(b, 9, "%08lx", ::crc32(0, (const Bytef *) m.data(), (uInt) m.size()));
	return b;
}

template <typename H> std::string streamed(pbt::Data & d, H h, const std::string & m, bool ask) {
	// Added in pieces, with the hash of the prefix asked for in between.
	size_t at = 0;
	for (size_t pieces = d.upto(6); pieces--; ) {
		const size_t n = d.chance(1, 6) ? 0 : d.chance(1, 2) ? d.upto(std::min<size_t>(m.size() - at, 300)) : d.upto(m.size() - at);
		h.add(m.data() + at, n);
		at += n;
		if (ask && d.chance(1, 4)) {
			H fresh = h;
			fresh.reset();
			CHECK(h.getHash() == fresh(m.substr(0, at)), "the hash of a prefix of " << at << " bytes");
			d.label("intermediate hash");
		}
	}
	h.add(m.data() + at, m.size() - at);
	const std::string r = h.getHash();
	CHECK(h.getHash() == r, "the hash changed when asked for again");
	h.reset();
	CHECK(h(m) == r, "the hash after a reset");
	return r;
}

} // namespace

PBT(hashes, 1500, 100000) {
	Folder folder;
	const int which = (int) d.upto(5);
	std::string text = content(d, which == 2 || which == 3 ? 136 : 64);
	using File = Resource::File;
	struct Hash { const char * name; std::string (* file)(const File &); std::string (* stream)(std::istream &); std::string (* string)(std::string &); std::string expected; };
	const Hash all[] = {
		{ "sha256", Hashing::sha256, Hashing::sha256, Hashing::sha256, which == 0 ? openssl(EVP_sha256(), text) : "" },
		{ "sha1", Hashing::sha1, Hashing::sha1, Hashing::sha1, which == 1 ? openssl(EVP_sha1(), text) : "" },
		{ "sha3", Hashing::sha3, Hashing::sha3, Hashing::sha3, which == 2 ? keccak(text, 256, 6) : "" },
		{ "keccak", Hashing::keccak, Hashing::keccak, Hashing::keccak, which == 3 ? keccak(text, 256, 1) : "" },
		{ "md5", Hashing::md5, Hashing::md5, Hashing::md5, which == 4 ? openssl(EVP_md5(), text) : "" },
		{ "crc32", Hashing::crc32, Hashing::crc32, Hashing::crc32, which == 5 ? crc(text) : "" },
	};
	const Hash & h = all[which];
	d.label(h.name);
	std::string got;
	switch (d.upto(2)) {
		case 0: spit(folder.path + "/x", text); got = h.file(File(folder.path + "/x")); break;
		case 1: { std::istringstream in(text); got = h.stream(in); break; }
		default: { std::string copy = text; got = h.string(copy); CHECK(copy == text, "the text changed"); }
	}
	CHECK(got == h.expected, h.name << " is " << got << " instead of " << h.expected);
	// Files that cannot be hashed.
	if (d.chance(1, 4)) {
		MUST_THROW(h.file(File(folder.path + "/missing")), Exception::FileNotFoundException, h.name << " of a missing file");
		MUST_THROW(h.file(File(folder.path)), Exception::FileNotFoundException, h.name << " of a directory");
		d.label("missing");
	}
}

PBT(streaming, 2000, 100000) {
	using namespace HashLibrary;
	const int which = (int) d.upto(7);
	static const std::vector<int> sizes { 224, 256, 384, 512 };
	const int bits = d.pick(sizes);
	const std::string text = content(d, which == 4 || which == 5 ? 200 - bits / 4 : 64);
	std::string expected, got;
	switch (which) {
		case 0: got = streamed(d, SHA256(), text, true); expected = openssl(EVP_sha256(), text); break;
		case 1: got = streamed(d, SHA1(), text, true); expected = openssl(EVP_sha1(), text); break;
		case 2: got = streamed(d, MD5(), text, true); expected = openssl(EVP_md5(), text); break;
		case 3: got = streamed(d, CRC32(), text, true); expected = crc(text); break;
		case 4: got = streamed(d, SHA3((SHA3::Bits) bits), text, true); expected = keccak(text, bits, 6); break;
		case 5: got = streamed(d, Keccak((Keccak::Bits) bits), text, true); expected = keccak(text, bits, 1); break;
		default: {
			const std::string key = gen::bytes(d, d.boolean() ? 200 : 70);
			unsigned char out[EVP_MAX_MD_SIZE];
			unsigned n = 0;
			const int kind = (int) d.upto(2);
			HMAC(kind == 0 ? EVP_sha256() : kind == 1 ? EVP_sha1() : EVP_md5(), key.data(), (int) key.size(), (const unsigned char *) text.data(), text.size(), out, &n);
			expected = hex(std::string((char *) out, n));
			got = kind == 0 ? hmac<SHA256>(text, key) : kind == 1 ? hmac<SHA1>(text, key) : hmac<MD5>(text, key);
			d.note("hmac " + std::to_string(kind) + " key " + std::to_string(key.size()));
			d.label("hmac");
		}
	}
	d.note("hash " + std::to_string(which) + " bits " + std::to_string(bits));
	CHECK(got == expected, got << " instead of " << expected);
}

// Files the user may not read.
PBT(unreadable, 60, 1000) {
	if (geteuid() != 0) d.discard();
	struct Public { char path[40] = "/tmp/balau-pbt-XXXXXX"; Public() { CHECK(mkdtemp(path), "mkdtemp"); } ~Public() { unlink((path + std::string("/secret")).c_str()); rmdir(path); } } open;
	struct { std::string path; } folder { open.path };
	spit(folder.path + "/secret", content(d, 64));
	chmod(folder.path.c_str(), 0755);
	chmod((folder.path + "/secret").c_str(), 0);
	const int which = (int) d.upto(5);
	const pid_t pid = fork();
	if (!pid) {
		if (setgid(65534) || setuid(65534)) _exit(3);
		const Resource::File file(folder.path + "/secret");
		if (access(folder.path.c_str(), X_OK)) _exit(3);
		try {
			switch (which) {
				case 0: Hashing::sha256(file); break;
				case 1: Hashing::sha1(file); break;
				case 2: Hashing::sha3(file); break;
				case 3: Hashing::keccak(file); break;
				case 4: Hashing::md5(file); break;
				default: Hashing::crc32(file); break;
			}
			_exit(1);
		} catch (const Exception::CouldNotOpenException &) { _exit(0); } catch (...) { _exit(2); }
	}
	int status = 0;
	waitpid(pid, &status, 0);
	if (WIFEXITED(status) && WEXITSTATUS(status) == 3) d.discard();
	CHECK(WIFEXITED(status) && WEXITSTATUS(status) == 0, "hash " << which << " of a file that cannot be opened: " << (WIFEXITED(status) && WEXITSTATUS(status) == 1 ? "returned" : "no CouldNotOpenException"));
	d.nontrivial();
}

PBT(reading_files, 800, 30000) {
	Folder folder;
	std::string text = content(d, 64);
	for (size_t n = text.empty() ? 0 : d.upto(8); n--; ) text[d.upto(text.size() - 1)] = '\n';
	spit(folder.path + "/x", text);
	const Resource::File file(folder.path + "/x"), copied(folder.path + "/y"), missing(folder.path + "/missing"), directory(folder.path);
	std::vector<std::string> lines;
	std::string line;
	for (char c : text) if (c == '\n') { lines.push_back(line); line.clear(); } else line += c;
	if (!line.empty()) lines.push_back(line);
	CHECK(Files::toLines(file) == lines, "lines");
	CHECK(Files::readToString(file) == text, "string");
	CHECK(Files::readToVector(file) == std::vector<char>(text.begin(), text.end()), "vector");
	Files::copy(file, copied);
	CHECK(slurp(folder.path + "/y") == text && slurp(folder.path + "/x") == text, "copy");
	for (auto * bad : { &missing, &directory }) {
		MUST_THROW(Files::toLines(*bad), Exception::FileNotFoundException, "lines of " << (bad == &missing ? "a missing file" : "a directory"));
		MUST_THROW(Files::readToString(*bad), Exception::FileNotFoundException, "string of " << (bad == &missing ? "a missing file" : "a directory"));
		MUST_THROW(Files::readToVector(*bad), Exception::FileNotFoundException, "vector of " << (bad == &missing ? "a missing file" : "a directory"));
	}
}
