// P06: the scanned token structures - positions and the scanner API's lookahead, put back, markers and whitespace modes,
// against a reference computed from the text; and the property scanner's tokens tile their input.
#include <Balau/Resource/File.hpp>
#include <Balau/Resource/StringUri.hpp>
#include <Balau/Lang/Common/ScannedTokens.hpp>
#include <Balau/Lang/Property/Parser/PropertyScanner.hpp>
#include "gen.hpp"
#include <list>

using namespace Balau;
using namespace Balau::Lang;

enum class Tok { Blank, LineBreak, CommentLine, CommentBlock, Text, Other, EndOfFile };

static std::string str(const CodeSpan & s) { std::ostringstream o; o << s.start.line << ":" << s.start.column << "-" << s.end.line << ":" << s.end.column; return o.str(); }

struct Model {
	std::string text;
	std::vector<Tok> tokens;
	std::vector<unsigned> offsets;
	std::vector<CodeSpan> spans;
	std::vector<std::string> texts;

	static CodePosition after(CodePosition p, const std::string & t) {
		for (size_t i = 0; i < t.size(); ++i) {
			if (t[i] == '\n' || t[i] == '\r') {
				if (i + 1 < t.size() && (t[i + 1] == '\n' || t[i + 1] == '\r') && t[i + 1] != t[i]) ++i;
				++p.line; p.column = 1;
			} else ++p.column;
		}
		return p;
	}

	void add(Tok k, const std::string & t) {
		tokens.push_back(k); offsets.push_back((unsigned) text.size()); texts.push_back(t);
		CodePosition start = spans.empty() ? CodePosition(1, 1) : spans.back().end;
		spans.emplace_back(start, after(start, t));
		text += t;
	}

	explicit Model(pbt::Data & d, size_t max) {
		size_t n = d.size(max);
		static const std::vector<std::string> lbs { "\n", "\r", "\r\n", "\n\r" };
		for (size_t i = 0; i < n; ++i) {
			switch (d.draw(6)) {
				case 0: add(Tok::Blank, std::string(1 + d.upto(3), ' ')); break;
				case 1: add(Tok::LineBreak, d.pick(lbs)); break;
				case 2: add(Tok::CommentLine, "#" + gen::ident(d, 5) + d.pick(lbs)); break;
				case 3: { std::string t = "/*" + gen::ident(d, 4); size_t k = 1 + d.upto(2); for (size_t j = 0; j < k; ++j) t += d.pick(lbs) + (d.boolean() ? "" : gen::ident(d, 3)); t += "*/"; add(Tok::CommentBlock, t); break; }
				case 4: add(Tok::Other, d.pick({ std::string("="), std::string("\xe2\x82\xac"), std::string("\\\n"), std::string("\\\r\n") })); break;
				default: add(Tok::Text, gen::ident(d, 6)); break;
			}
		}
		add(Tok::EndOfFile, "");
	}

	ScannedTokens<Tok> make() const { return ScannedTokens<Tok>(std::shared_ptr<const Resource::Uri>(new Resource::StringUri(text)), std::string(text), std::vector<Tok>(tokens), std::vector<unsigned>(offsets)); }

	std::string describe() const { return pbt::show(text) + " in " + std::to_string(tokens.size()) + " tokens"; }
};

static bool skipped(WhitespaceMode m, Tok t) {
	bool b = t == Tok::Blank, l = t == Tok::LineBreak, c = t == Tok::CommentLine;
	switch (m) {
		case WhitespaceMode::ConsumeWhitespaceAndComments: return b || l || c;
		case WhitespaceMode::ConsumeWhitespace: return b || l;
		case WhitespaceMode::ConsumeBlanksAndComments: return b || c;
		case WhitespaceMode::ConsumeBlanks: return b;
		case WhitespaceMode::ConsumeLineBreaksAndComments: return l || c;
		case WhitespaceMode::ConsumeLineBreaks: return l;
		case WhitespaceMode::ConsumeComments: return c;
		default: return false;
	}
}

PBT(code_spans, 40000, 1500000) {
	Model m(d, 16);
	d.note(m.describe());
	d.nontrivial(m.tokens.size() > 3 && m.spans.back().end.line > 1);
	RandomAccessScannedTokens<Tok> ra(m.make());
	CHECK(ra.getCodeSpans().size() == m.spans.size(), ra.getCodeSpans().size() << " code spans");
	ScannedTokens<Tok> st = m.make();
	for (size_t i = 0; i < m.spans.size(); ++i) {
		CHECK(ra.getCodeSpans()[i] == m.spans[i], "token " << i << ": code span " << str(ra.getCodeSpans()[i]) << " expected " << str(m.spans[i]));
		auto s = RandomAccessScannedTokens<Tok>::determineCodeSpan(st, (unsigned) i);
		CHECK(s == m.spans[i], "token " << i << ": determineCodeSpan " << str(s) << " expected " << str(m.spans[i]));
		CHECK(st.getText((unsigned) i) == m.texts[i], "token " << i << ": text " << pbt::show(st.getText((unsigned) i)));
	}
	CHECK(st.getText((unsigned) m.tokens.size() + 3).empty(), "text beyond the tokens");
	MUST_THROW(RandomAccessScannedTokens<Tok>::determineCodeSpan(st, (unsigned) m.tokens.size()), Exception::IndexOutOfRangeException, "");
	IterativeScannedTokens<Tok> it(st);
	CHECK(it.size() == m.tokens.size(), "");
	for (size_t i = 0; i < m.tokens.size(); ++i) CHECK(it.getToken((unsigned) i) == m.tokens[i] && it.getStartOffset((unsigned) i) == m.offsets[i], "iterative access to token " << i);
	std::string moved = ra.moveTextOut();
	CHECK(moved == m.text, "the moved text is " << pbt::show(moved));
}

PBT(scanner_api, 60000, 2000000) {
	Model m(d, 14);
	d.note(m.describe());
	ScannerApiScannedTokens<Tok> s(m.make());
	size_t i = 0, last = m.tokens.size() - 1;
	std::vector<WhitespaceMode> modes { WhitespaceMode::DoNotConsume };
	using Api = ScannerApiScannedTokens<Tok>;
	std::vector<std::pair<Api::Marker, size_t>> marks;
	static const std::vector<WhitespaceMode> all { WhitespaceMode::DoNotConsume, WhitespaceMode::ConsumeWhitespaceAndComments, WhitespaceMode::ConsumeWhitespace, WhitespaceMode::ConsumeBlanksAndComments, WhitespaceMode::ConsumeBlanks, WhitespaceMode::ConsumeLineBreaksAndComments, WhitespaceMode::ConsumeLineBreaks, WhitespaceMode::ConsumeComments };
	static const std::vector<Tok> kinds { Tok::Blank, Tok::LineBreak, Tok::CommentLine, Tok::CommentBlock, Tok::Text, Tok::Other, Tok::EndOfFile };
	size_t steps = 1 + d.size(24), moves = 0;
	std::ostringstream log;
	auto skip = [&] { while (skipped(modes.back(), m.tokens[i])) ++i; };
	for (size_t k = 0; k < steps; ++k) {
		size_t op = d.draw(11);
		log.str("");
		log << "step " << k << " ";
		switch (op) {
			case 0: case 1: {
				log << "get";
				auto t = s.get();
				skip();
				CHECK(t.token == m.tokens[i], log.str() << ": wrong token at " << i);
				CHECK(t.text == m.texts[i], log.str() << ": text " << pbt::show(t.text) << " expected " << pbt::show(m.texts[i]));
				CHECK(t.codeSpan == m.spans[i], log.str() << ": code span " << str(t.codeSpan) << " expected " << str(m.spans[i]));
				break;
			}
			case 2: case 3: log << "consume"; s.consume(); if (i < last) { ++i; ++moves; } break;
			case 4: case 5: {
				log << "putBack";
				s.putBack();
				if (i > 0) {
					--i; ++moves;
					if (modes.back() != WhitespaceMode::DoNotConsume) while (i > 0 && skipped(modes.back(), m.tokens[i - 1])) --i;
				}
				break;
			}
			case 6: log << "mark"; marks.emplace_back(s.mark(), i); break;
			case 7: {
				if (marks.empty()) break;
				log << "putBack(marker)";
				auto & mk = marks[d.upto(marks.size() - 1)];
				if (mk.second > i) MUST_THROW(s.putBack(mk.first), Exception::IndexOutOfRangeException, log.str());
				else { s.putBack(mk.first); i = mk.second; ++moves; }
				break;
			}
			case 8: log << "push mode"; modes.push_back(d.pick(all)); s.pushWhitespaceMode(modes.back()); break;
			case 9: if (modes.size() > 1) { log << "pop mode"; modes.pop_back(); s.popWhitespaceMode(); } break;
			case 10: {
				log << "expect";
				skip();
				Tok e = d.boolean() ? m.tokens[i] : d.pick(kinds);
				bool match;
				size_t before = i;
				switch (d.draw(3)) {
					case 0: {
						match = m.tokens[i] == e;
						if (match) { s.expect(e, "x"); } else MUST_THROW(s.expect(e, "x"), Exception::SyntaxErrorException, log.str());
						break;
					}
					case 1: {
						std::vector<Tok> es { e, d.pick(kinds) };
						match = m.tokens[i] == es[0] || m.tokens[i] == es[1];
						if (match) { s.expect(es, "x"); } else MUST_THROW(s.expect(es, "x"), Exception::SyntaxErrorException, log.str());
						break;
					}
					case 2: {
						std::vector<std::string> reports(d.upto(2), "old");
						size_t had = reports.size();
						std::function<std::string (const Tok &, const CodeSpan &, size_t)> f = [&] (const Tok & t, const CodeSpan & c, size_t) { return std::to_string((int) t) + str(c); };
						match = m.tokens[i] == e;
						bool got = s.expect(e, reports, 2, f);
						CHECK(got == match, log.str() << ": returned " << got);
						CHECK(reports.size() == (match || had >= 2 ? had : had + 1), log.str() << ": " << reports.size() << " reports");
						if (reports.size() > had) CHECK(reports.back() == std::to_string((int) e) + str(m.spans[i]), log.str() << ": report " << reports.back());
						break;
					}
					default: {
						std::vector<Tok> es { e, d.pick(kinds) };
						std::vector<std::string> reports(d.upto(2), "old");
						size_t had = reports.size();
						std::function<std::string (const std::vector<Tok> &, const CodeSpan &, size_t)> f = [&] (const std::vector<Tok> & t, const CodeSpan & c, size_t) { return std::to_string(t.size()) + str(c); };
						match = m.tokens[i] == es[0] || m.tokens[i] == es[1];
						bool got = s.expect(es, reports, 2, f);
						CHECK(got == match, log.str() << ": returned " << got);
						CHECK(reports.size() == (match || had >= 2 ? had : had + 1), log.str() << ": " << reports.size() << " reports");
						break;
					}
				}
				if (match && i < last) ++i;
				(void) before;
				break;
			}
			default: {
				if (!d.chance(1, 3)) break;
				log << "reset";
				s.reset();
				i = 0; modes = { WhitespaceMode::DoNotConsume };
				break;
			}
		}
		CHECK(s.getCurrentCodeSpan() == m.spans[i], log.str() << ": current code span " << str(s.getCurrentCodeSpan()) << " expected " << str(m.spans[i]) << " (token " << i << ")");
		CHECK(s.currentIsBlank() == (m.tokens[i] == Tok::Blank), log.str());
		CHECK(s.currentIsLineBreak() == (m.tokens[i] == Tok::LineBreak), log.str());
		CHECK(s.currentIsWhitespace() == (m.tokens[i] == Tok::Blank || m.tokens[i] == Tok::LineBreak), log.str());
		auto here = s.mark();
		CHECK(s.isBlank(here) == (m.tokens[i] == Tok::Blank) && s.isLineBreak(here) == (m.tokens[i] == Tok::LineBreak) && s.isWhitespace(here) == (m.tokens[i] == Tok::Blank || m.tokens[i] == Tok::LineBreak), log.str());
		CHECK(s.size() == m.tokens.size(), log.str());
	}
	d.nontrivial(moves > 2 && m.spans.back().end.line > 1);
}

// The property scanner: tokens tile the text, each token's text fits its kind, and positions follow from the text.
PBT(property_scanner, 60000, 2000000) {
	using Lang::Property::PropertyToken;
	static const std::vector<std::string> atoms { "\n", "\r", "\r\n", "\n\r", "\\", "{", "}", "@", "=", ":", "#", "!", " ", "\t", "a", "bc", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\\\n", "\\\r\n", "\\a", "  " };
	std::string text;
	size_t n = d.size(20);
	for (size_t i = 0; i < n; ++i) text += d.pick(atoms);
	d.note(pbt::show(text));
	d.nontrivial(text.find_first_of("\r\n") != std::string::npos && text.size() > 3);
	std::shared_ptr<Resource::Uri> uri(new Resource::StringUri(text));
	Lang::Property::PropertyScanner scanner(uri);
	auto scanned = scanner.scan();
	CHECK(scanned.getUri() == uri, "another uri");
	IterativeScannedTokens<PropertyToken> it(scanned);
	RandomAccessScannedTokens<PropertyToken> ra(std::move(scanned));
	std::string joined;
	CodePosition p(1, 1);
	for (size_t i = 0; i < it.size(); ++i) {
		size_t b = it.getStartOffset((unsigned) i), e = i + 1 < it.size() ? it.getStartOffset((unsigned) i + 1) : text.size();
		CHECK(b == joined.size() && e >= b && e <= text.size(), "token " << i << " does not continue its predecessor");
		std::string t = text.substr(b, e - b);
		joined += t;
		PropertyToken k = it.getToken((unsigned) i);
		bool ok = true;
		bool isEnd = i + 1 == it.size();
		auto special = [] (char c) { return std::string("{}:=#!\\ \t\r\n").find(c) != std::string::npos; };
		switch (k) {
			case PropertyToken::EndOfFile: ok = isEnd && t.empty(); break;
			case PropertyToken::Blank: ok = !t.empty() && t.find_first_not_of(" \t") == std::string::npos && (e == text.size() || (text[e] != ' ' && text[e] != '\t')); break;
			case PropertyToken::LineBreak: ok = t == "\n" || t == "\r" || t == "\r\n" || t == "\n\r"; if (t.size() == 1 && e < text.size() && (text[e] == '\n' || text[e] == '\r') && text[e] != t[0]) ok = false; break;
			case PropertyToken::OpenCurly: ok = t == "{"; break;
			case PropertyToken::CloseCurly: ok = t == "}"; break;
			case PropertyToken::Arobase: ok = t == "@"; break;
			case PropertyToken::Colon: ok = t == ":"; break;
			case PropertyToken::Equals: ok = t == "="; break;
			case PropertyToken::Hash: ok = t == "#"; break;
			case PropertyToken::Exclamation: ok = t == "!"; break;
			case PropertyToken::EscapedLineBreak: ok = t == "\\\n" || t == "\\\r" || t == "\\\r\n" || t == "\\\n\r"; break;
			case PropertyToken::EscapedBlank: ok = t == "\\ " || t == "\\\t"; break;
			case PropertyToken::EscapedOpenCurly: ok = t == "\\{"; break;
			case PropertyToken::EscapedCloseCurly: ok = t == "\\}"; break;
			case PropertyToken::EscapedArobase: ok = t == "\\@"; break;
			case PropertyToken::EscapedColon: ok = t == "\\:"; break;
			case PropertyToken::EscapedEquals: ok = t == "\\="; break;
			case PropertyToken::EscapedHash: ok = t == "\\#"; break;
			case PropertyToken::EscapedExclamation: ok = t == "\\!"; break;
			case PropertyToken::EscapedBackSlash: ok = t == "\\\\"; break;
			case PropertyToken::EscapedChar: ok = t[0] == '\\' && (t.size() == 1 ? e == text.size() : t.size() == gen::encodedLength(0) * (((unsigned char) t[1] < 0x80) ? 2 : 1) || (unsigned char) t[1] >= 0xC0); break;
			case PropertyToken::Text: {
				ok = !t.empty() && !special(t[0]) && t[0] != '@';
				for (char c : t) if (special(c)) ok = false;
				if (e < text.size() && !special(text[e])) ok = false; // greedy
				break;
			}
			default: ok = false;
		}
		CHECK(ok, "token " << i << " of kind " << Lang::Property::toString(k) << " has the text " << pbt::show(t));
		CodeSpan expected(p, Model::after(p, t));
		p = expected.end;
		CHECK(ra.getCodeSpans()[i] == expected, "token " << i << ": code span " << str(ra.getCodeSpans()[i]) << " expected " << str(expected));
	}
	CHECK(joined == text, "the tokens give " << pbt::show(joined));
}

// An invalid byte is reported at the position of the token that contains it.
PBT(invalid_byte_position, 30000, 600000) {
	std::string text;
	static const std::vector<std::string> atoms { "\n", "\r\n", " ", "a", "bc", "=", "\xc3\xa9", "\\\n", "{", "#" };
	size_t n = d.size(14);
	for (size_t i = 0; i < n; ++i) text += d.pick(atoms);
	unsigned line = 1;
	for (size_t i = 0; i < text.size(); ++i) if (text[i] == '\n') ++line;
	std::string bad = d.pick({ std::string("\xff"), std::string("\x80"), std::string("\xc3"), std::string("\xe2\x82"), std::string("\xed\xa0\x80"), std::string("\xc0\x80") });
	std::string all = text + bad + (d.boolean() ? " x\n" : "");
	d.note(pbt::show(all));
	d.nontrivial(line > 1);
	std::shared_ptr<Resource::Uri> uri(new Resource::StringUri(all));
	Lang::Property::PropertyScanner scanner(uri);
	bool threw = false;
	try { auto scanned = scanner.scan(); } catch (const Exception::SyntaxErrorException & e) {
		threw = true;
		CHECK(e.codeSpan.end.line == line || e.codeSpan.start.line == line, "reported at " << str(e.codeSpan) << ", the byte is in line " << line);
	}
	CHECK(threw, "accepted");
}
