// P04 / P05: the property language - parsing of generated documents against the structure they were generated from,
// robustness on arbitrary bytes, printing as a fixed point of parsing, and normalisation of escapes.
#include <Balau/Resource/File.hpp>
#include <Balau/Lang/Property/PropertyParserService.hpp>
#include <Balau/Lang/Property/Util/PropertyAstToString.hpp>
#include <Balau/Resource/StringUri.hpp>
#include "gen.hpp"

using namespace Balau;
namespace AST = Balau::Lang::Property::AST;
using Lang::Property::PropertyParserService;

struct Node {
	enum Kind { Empty, Comment, Include, Value, Composite } kind;
	std::string text;                 // comment / include text
	std::string rawName, name;        // as written, and after normalisation
	std::string rawValue, value;
	std::vector<Node> nodes;
	// Where the parts are found: the line and the column of the first byte.
};

struct Doc {
	pbt::Data & d;
	std::string lb;
	std::string out;
	bool simple;          // no carriage returns etc. needed by the printer test
	size_t budget = 40;
	size_t continuations = 0, escapes = 0, composites = 0, depth = 0, values = 0;

	explicit Doc(pbt::Data & d_, bool printable) : d(d_), simple(printable) {
		lb = printable ? "\n" : d.pick({ std::string("\n"), std::string("\r\n"), std::string("\r"), std::string("\n\r") });
	}

	std::string blanks(size_t min) {
		std::string r;
		size_t n = min + (d.chance(1, 3) ? d.upto(3) : 0);
		for (size_t i = 0; i < n; ++i) r += d.chance(1, 12) ? d.pick({ std::string("\xe3\x80\x80"), std::string("\xe2\x80\x83") }) : std::string(d.chance(1, 4) ? "\t" : " ");
		return r;
	}

	std::string plainChar() {
		static const std::vector<std::string> multi { "\xc3\xa9", "\xce\xbb", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xef\xbf\xbd", "\xc4\xb0" };
		switch (d.draw(9)) {
			case 0: return d.pick(multi);
			case 1: return std::string(1, d.pick({ '.', '-', '_', '/', '"', '\'', '$', '%', ',', ';', '(', ')', '[', ']', '<', '>', '?', '*', '&', '|', '~', '^', '+', '`', '\x01', '\x7f' }));
			case 2: return std::string(1, (char) d.range('0', '9'));
			default: return std::string(1, (char) d.range('a', 'z'));
		}
	}

	// One escaped character: raw text and meaning.
	void escaped(std::string & raw, std::string & value) {
		++escapes;
		std::string c;
		switch (d.draw(3)) {
			case 0: c = plainChar(); break;
			case 1: c = d.pick({ std::string(" "), std::string("\t") }); break;
			default: c = std::string(1, d.pick({ '{', '}', '@', ':', '=', '#', '!', '\\' })); break;
		}
		raw += "\\" + c; value += c;
	}

	void continuation(std::string & raw) { ++continuations; raw += "\\" + lb + blanks(0); }

	void key(Node & n) {
		size_t k = 1 + d.size(6);
		for (size_t i = 0; i < k; ++i) {
			switch (d.draw(9)) {
				case 0: escaped(n.rawName, n.name); break;
				case 1: continuation(n.rawName); { std::string c = plainChar(); n.rawName += c; n.name += c; } break;
				case 2: if (i > 0) { std::string c(1, d.pick({ '#', '!' })); n.rawName += c; n.name += c; break; }
				default: { std::string c = plainChar(); n.rawName += c; n.name += c; }
			}
		}
		// '@' inside a text run.
		if (d.chance(1, 10)) { n.rawName += "a@b"; n.name += "a@b"; }
	}

	void value(Node & n, bool explicitSeparator) {
		++values;
		size_t k = 1 + d.size(10);
		bool lastContinuation = false;
		for (size_t i = 0; i < k; ++i) {
			lastContinuation = false;
			switch (d.draw(9)) {
				case 0: escaped(n.rawValue, n.value); break;
				case 1: continuation(n.rawValue); { std::string c = plainChar(); n.rawValue += c; n.value += c; } break;
				case 2: if (i > 0 || explicitSeparator) { std::string c(1, d.pick({ '=', ':', '#', '!' })); n.rawValue += c; n.value += c; break; }
				[[fallthrough]];
				case 3: if (i > 0) { std::string c = blanks(1); n.rawValue += c; n.value += c; break; }
				[[fallthrough]];
				case 4: if (i > 0) { std::string c(1, d.pick({ '{', '}' })); n.rawValue += c; n.value += c; break; }
				[[fallthrough]];
				default: { std::string c = plainChar(); n.rawValue += c; n.value += c; }
			}
			// A continuation directly followed by an escape, or by another continuation.
			if (d.chance(1, 12)) {
				continuation(n.rawValue);
				if (d.chance(1, 3)) continuation(n.rawValue);
				escaped(n.rawValue, n.value);
			}
		}
	}

	std::string freeText(bool include) {
		std::string r;
		size_t k = d.size(12);
		for (size_t i = 0; i < k; ++i) {
			switch (d.draw(5)) {
				case 0: r += std::string(1, d.pick({ '{', '}', '@', ':', '=', '#', '!', ' ', '\t' })); break;
				case 1: r += "\\" + plainChar(); break;
				default: r += plainChar();
			}
		}
		if (!include && d.chance(1, 8)) r += "\\"; // a comment is not continued
		return r;
	}

	// Returns false when the node ended at the end of the document without a line break.
	bool node(Node & n, bool last, const std::string & indent) {
		size_t k = d.weighted({ 5, 2, 2, 1, 3 });
		if (budget > 0) --budget;
		if (k == 4 && (budget == 0 || depth > 4)) k = 0;
		bool noBreak = last && d.boolean();
		switch (k) {
			case 0: {
				n.kind = Node::Value;
				out += indent;
				key(n);
				out += n.rawName;
				size_t sep = d.draw(3);
				bool empty = d.chance(1, 6);
				if (empty) {
					std::string s = sep == 0 ? "" : sep == 1 ? blanks(0) + "=" + blanks(0) : sep == 2 ? blanks(0) + ":" + blanks(0) : blanks(1);
					out += s;
				} else {
					out += sep == 0 || sep == 1 ? blanks(0) + "=" + blanks(0) : sep == 2 ? blanks(0) + ":" + blanks(0) : blanks(1);
					value(n, sep != 3);
					out += n.rawValue;
				}
				break;
			}
			case 1: n.kind = Node::Empty; out += blanks(0); noBreak = false; break;
			case 2: n.kind = Node::Comment; n.text = freeText(false); out += indent + (d.boolean() ? "#" : "!") + n.text; if (!n.text.empty() && n.text.back() == '\\') noBreak = false; break;
			case 3: n.kind = Node::Include; n.text = freeText(true); out += indent + "@" + n.text; break;
			default: {
				n.kind = Node::Composite;
				++composites;
				out += indent;
				key(n);
				out += n.rawName;
				switch (d.draw(3)) {
					case 0: out += blanks(1); break;
					case 1: out += blanks(0) + "=" + blanks(0); break;
					case 2: out += blanks(0) + ":" + blanks(0); break;
					default: break; // key{
				}
				out += "{" + lb;
				size_t c = d.size(4);
				++depth;
				for (size_t i = 0; i < c && budget > 0; ++i) { n.nodes.emplace_back(); node(n.nodes.back(), false, blanks(0)); }
				--depth;
				out += blanks(0) + "}";
			}
		}
		if (noBreak) return false;
		out += lb;
		return true;
	}

	std::vector<Node> document() {
		std::vector<Node> r;
		size_t n = d.size(8);
		for (size_t i = 0; i < n; ++i) { r.emplace_back(); if (!node(r.back(), i + 1 == n, blanks(0))) break; }
		return r;
	}
};

// ---------------------------------------------------------------------------------------------

static std::string norm(std::string_view s) { return AST::PropertyNode::normalise(s); }

static void compare(const std::vector<Node> & expected, const std::vector<std::unique_ptr<AST::PropertyNode>> & actual, bool raw, const std::string & path) {
	CHECK(expected.size() == actual.size(), "at " << path << ": " << actual.size() << " nodes, expected " << expected.size());
	for (size_t i = 0; i < expected.size(); ++i) {
		const Node & e = expected[i];
		const AST::PropertyNode * a = actual[i].get();
		std::string at = path + "/" + std::to_string(i);
		switch (e.kind) {
			case Node::Empty: CHECK(dynamic_cast<const AST::EmptyLinePropertyNode *>(a), at << " is not an empty line"); break;
			case Node::Comment: {
				auto * c = dynamic_cast<const AST::CommentPropertyNode *>(a);
				CHECK(c, at << " is not a comment");
				CHECK(c->getText() == e.text, at << " comment " << pbt::show(c->getText()) << " expected " << pbt::show(e.text));
				break;
			}
			case Node::Include: {
				auto * c = dynamic_cast<const AST::IncludePropertyNode *>(a);
				CHECK(c, at << " is not an include");
				CHECK(c->getText() == e.text, at << " include " << pbt::show(c->getText()) << " expected " << pbt::show(e.text));
				break;
			}
			case Node::Value: {
				auto * c = dynamic_cast<const AST::ValueProperty *>(a);
				CHECK(c, at << " is not a value property");
				if (raw) {
					CHECK(c->getName() == e.rawName, at << " name " << pbt::show(c->getName()) << " expected " << pbt::show(e.rawName));
					CHECK(c->getValue() == e.rawValue, at << " value " << pbt::show(c->getValue()) << " expected " << pbt::show(e.rawValue));
				}
				CHECK(norm(c->getName()) == e.name, at << " normalised name " << pbt::show(norm(c->getName())) << " expected " << pbt::show(e.name));
				CHECK(norm(c->getValue()) == e.value, at << " normalised value " << pbt::show(norm(c->getValue())) << " expected " << pbt::show(e.value));
				break;
			}
			case Node::Composite: {
				auto * c = dynamic_cast<const AST::CompositeProperty *>(a);
				CHECK(c, at << " is not a composite property");
				if (raw) CHECK(c->getName() == e.rawName, at << " name " << pbt::show(c->getName()) << " expected " << pbt::show(e.rawName));
				CHECK(norm(c->getName()) == e.name, at << " normalised name " << pbt::show(norm(c->getName())) << " expected " << pbt::show(e.name));
				compare(e.nodes, c->getNodes(), raw, at);
				break;
			}
		}
	}
}

// Structural comparison of two syntax trees (the raw slices, not the code spans).
static void sameAst(const std::vector<std::unique_ptr<AST::PropertyNode>> & l, const std::vector<std::unique_ptr<AST::PropertyNode>> & r, bool normalised) {
	auto n = [&] (std::string_view s) { return normalised ? norm(s) : std::string(s); };
	CHECK(l.size() == r.size(), l.size() << " nodes became " << r.size());
	for (size_t i = 0; i < l.size(); ++i) {
		const AST::PropertyNode * a = l[i].get(), * b = r[i].get();
		CHECK(typeid(*a) == typeid(*b), "node " << i << " changed its kind");
		if (auto * v = dynamic_cast<const AST::ValueProperty *>(a)) {
			auto * w = dynamic_cast<const AST::ValueProperty *>(b);
			CHECK(n(v->getName()) == n(w->getName()), pbt::show(v->getName()) << " became " << pbt::show(w->getName()));
			CHECK(n(v->getValue()) == n(w->getValue()), pbt::show(v->getValue()) << " became " << pbt::show(w->getValue()));
		} else if (auto * c = dynamic_cast<const AST::CompositeProperty *>(a)) {
			auto * w = dynamic_cast<const AST::CompositeProperty *>(b);
			CHECK(n(c->getName()) == n(w->getName()), pbt::show(c->getName()) << " became " << pbt::show(w->getName()));
			sameAst(c->getNodes(), w->getNodes(), normalised);
		} else if (auto * t = dynamic_cast<const AST::CommentPropertyNode *>(a)) {
			CHECK(t->getText() == dynamic_cast<const AST::CommentPropertyNode *>(b)->getText(), pbt::show(t->getText()) << " changed");
		} else if (auto * t = dynamic_cast<const AST::IncludePropertyNode *>(a)) {
			CHECK(t->getText() == dynamic_cast<const AST::IncludePropertyNode *>(b)->getText(), pbt::show(t->getText()) << " changed");
		}
	}
}

static std::string hexText(const std::string & s) { return pbt::show(s); }

static bool inside(const std::string & text, std::string_view slice) { return slice.empty() || (slice.data() >= text.data() && slice.data() + slice.size() <= text.data() + text.size()); }

static void slicesInside(const std::string & text, const std::vector<std::unique_ptr<AST::PropertyNode>> & nodes) {
	for (auto & p : nodes) {
		if (auto * v = dynamic_cast<const AST::ValueProperty *>(p.get())) CHECK(inside(text, v->getName()) && inside(text, v->getValue()), "a slice outside the text of the tree");
		else if (auto * c = dynamic_cast<const AST::CompositeProperty *>(p.get())) { CHECK(inside(text, c->getName()), "a slice outside the text of the tree"); slicesInside(text, c->getNodes()); }
		else if (auto * t = dynamic_cast<const AST::CommentPropertyNode *>(p.get())) CHECK(inside(text, t->getText()), "a slice outside the text of the tree");
		else if (auto * t = dynamic_cast<const AST::IncludePropertyNode *>(p.get())) CHECK(inside(text, t->getText()), "a slice outside the text of the tree");
	}
}

#ifdef PBT_P04

PBT(generated_documents, 60000, 2000000) {
	Doc doc(d, false);
	auto expected = doc.document();
	d.note(hexText(doc.out));
	d.nontrivial(doc.composites > 0 || doc.continuations > 0 || doc.escapes > 0);
	if (doc.continuations) d.label("continuations");
	if (doc.composites) d.label("composites");
	if (doc.escapes) d.label("escapes");
	try {
		auto ast = d.boolean() ? PropertyParserService::parse(Resource::StringUri(doc.out)) : PropertyParserService::parse(std::shared_ptr<Resource::Uri>(new Resource::StringUri(doc.out)));
		CHECK(ast.getText() == doc.out, "the tree holds " << pbt::show(ast.getText()));
		compare(expected, ast.getNodes(), true, "");
		slicesInside(ast.getText(), ast.getNodes());
		// Parsing again gives an equal tree.
		auto again = PropertyParserService::parse(Resource::StringUri(doc.out));
		CHECK(ast == again, "parsing the same text twice gives different trees");
		for (size_t i = 0; i < expected.size(); ++i) CHECK(*ast.getNodes()[i] == *again.getNodes()[i], "node " << i << " differs from itself when parsed again");
		for (size_t i = 0; i < expected.size(); ++i) {
			const AST::PropertyNode & node = *ast.getNodes()[i], & other = *again.getNodes()[(i + 1) % expected.size()], & tree = again;
			if (expected.size() > 1) CHECK(node != other && other != node, "node " << i << " equals the one that follows it");
			CHECK(node != tree && tree != node, "node " << i << " equals the tree that holds it");
		}
	} catch (const Exception::SyntaxErrorException & e) {
		FAIL("a well-formed document was rejected: " << e.what());
	}
}

// Well-formed documents damaged in ways that must be reported.
PBT(malformed_documents, 40000, 1000000) {
	Doc doc(d, false);
	doc.budget = 10;
	std::string before;
	{ auto nodes = doc.document(); if (!doc.out.empty() && doc.out.substr(doc.out.size() - std::min(doc.out.size(), doc.lb.size())) != doc.lb) doc.out += doc.lb; }
	std::string bad;
	size_t kind = d.draw(4);
	switch (kind) {
		case 0: bad = "}"; break;                                             // unmatched close
		case 1: bad = gen::ident(d, 5) + " {" + doc.lb + gen::ident(d, 3) + " = x" + doc.lb; break; // never closed
		case 2: bad = gen::ident(d, 5) + " { x" + doc.lb + "}" + doc.lb; break; // text after {
		case 3: bad = gen::ident(d, 5) + " {" + doc.lb + "} x" + doc.lb; break; // text after }
		default: bad = d.pick({ std::string("= x"), std::string(": x"), std::string("{"), std::string("=") }) + doc.lb; break; // no key
	}
	std::string text = doc.out + bad;
	if (kind != 1 && d.boolean()) { size_t n = d.upto(3); for (size_t i = 0; i < n; ++i) text += "k" + std::to_string(i) + " = v" + doc.lb; }
	d.note(hexText(text));
	d.label("kind " + std::to_string(kind));
	d.nontrivial(!doc.out.empty());
	bool threw = false;
	try { auto ast = PropertyParserService::parse(Resource::StringUri(text)); } catch (const Exception::SyntaxErrorException &) { threw = true; }
	CHECK(threw, "a malformed document was accepted");
}

static bool validUtf8(const std::string & s) {
	for (size_t i = 0; i < s.size();) {
		unsigned char c = (unsigned char) s[i];
		size_t n = c < 0x80 ? 1 : c >= 0xC2 && c < 0xE0 ? 2 : c >= 0xE0 && c < 0xF0 ? 3 : c >= 0xF0 && c < 0xF5 ? 4 : 0;
		if (n == 0 || i + n > s.size()) return false;
		uint32_t v = n == 1 ? c : c & (0xFF >> (n + 1));
		for (size_t k = 1; k < n; ++k) { unsigned char e = (unsigned char) s[i + k]; if ((e & 0xC0) != 0x80) return false; v = (v << 6) | (e & 0x3F); }
		if ((n == 3 && v < 0x800) || (n == 4 && (v < 0x10000 || v > 0x10FFFF)) || (v >= 0xD800 && v <= 0xDFFF)) return false;
		i += n;
	}
	return true;
}

// Any bytes: a tree whose slices lie in its text, or a syntax error.
PBT(arbitrary_texts, 150000, 5000000) {
	std::string text;
	switch (d.draw(2)) {
		case 0: {
			static const std::vector<std::string> atoms { "\n", "\r", "\r\n", "\\", "{", "}", "@", "=", ":", "#", "!", " ", "\t", "a", "bc", "\xc3\xa9", "\xc2\xa0", "\xe2\x80\xa8", "\\\n", "\\\r\n", "{\n", "}\n", "a {\n", "a = b\n", std::string("\0", 1), "\f", "\v" };
			size_t n = d.size(30);
			for (size_t i = 0; i < n; ++i) text += d.pick(atoms);
			break;
		}
		case 1: {
			Doc doc(d, false);
			doc.document();
			text = doc.out;
			size_t m = 1 + d.size(3);
			for (size_t i = 0; i < m && !text.empty(); ++i) {
				size_t p = d.upto(text.size() - 1);
				switch (d.draw(3)) {
					case 0: text.erase(p, 1 + d.upto(3)); break;
					case 1: text[p] = (char) d.draw(255); break;
					case 2: text.insert(p, 1, d.pick({ '\\', '{', '}', '\n', '\r', '=', '@' })); break;
					default: text.resize(p); break;
				}
			}
			break;
		}
		default: text = gen::bytes(d, 24);
	}
	bool valid = validUtf8(text);
	d.note(hexText(text));
	d.label(valid ? "valid UTF-8" : "invalid UTF-8");
	d.nontrivial(text.size() > 2);
	try {
		auto ast = PropertyParserService::parse(Resource::StringUri(text));
		d.label("accepted");
		CHECK(valid, "invalid UTF-8 was accepted");
		CHECK(ast.getText() == text, "the tree holds other text");
		slicesInside(ast.getText(), ast.getNodes());
		(void) AST::toString(ast);
	} catch (const Exception::SyntaxErrorException &) { d.label("rejected"); }
}

#else // P05

// Printing a tree and parsing the print gives the same names, values, comments and includes; printing again changes nothing.
PBT(print_fixed_point, 60000, 2000000) {
	Doc doc(d, true);
	auto expected = doc.document();
	d.note(hexText(doc.out));
	d.nontrivial(doc.composites > 0 || doc.continuations > 0 || doc.escapes > 0);
	auto ast = PropertyParserService::parse(Resource::StringUri(doc.out));
	std::string printed = AST::toString(ast);
	std::ostringstream stream; stream << static_cast<const AST::PropertyNode &>(ast);
	CHECK(stream.str() == printed, "operator << and toString differ");
	auto ast2 = PropertyParserService::parse(Resource::StringUri(printed));
	compare(expected, ast2.getNodes(), false, "printed");
	sameAst(ast.getNodes(), ast2.getNodes(), false);
	CHECK(AST::toString(ast2) == printed, "printing again gives " << pbt::show(AST::toString(ast2)) << " after " << pbt::show(printed));
}

// The same for whatever the parser accepts.
PBT(print_accepted_texts, 80000, 3000000) {
	static const std::vector<std::string> atoms { "\n", "\\\\", "{", "}", "@", "=", ":", "#", "!", " ", "\t", "a", "bc", "\xc3\xa9", "\\\nx", "\\\n  y", "{\n", "}\n", "a {\n", "a = b\n", "k : ", "z = ", "\\{", "\\}", "\\@", "\\ ", "\\=", "\\#", "\xe3\x80\x80", "\\\n\xe2\x80\x83z" };
	std::string text;
	size_t n = d.size(24);
	for (size_t i = 0; i < n; ++i) text += d.pick(atoms);
	d.note(hexText(text));
	std::unique_ptr<AST::Properties> ast;
	std::string printed;
	try {
		auto a = PropertyParserService::parse(Resource::StringUri(text));
		printed = AST::toString(a);
		d.label("accepted");
		d.nontrivial(n > 2);
		std::unique_ptr<AST::PropertyNode> none;
		auto b = PropertyParserService::parse(Resource::StringUri(printed));
		sameAst(a.getNodes(), b.getNodes(), false);
		CHECK(AST::toString(b) == printed, "printing again gives " << pbt::show(AST::toString(b)) << " after " << pbt::show(printed));
	} catch (const Exception::SyntaxErrorException &) {
		CHECK(printed.empty(), "the printed text is rejected: " << pbt::show(printed));
		d.label("rejected");
	}
}

// normalise() on any text, against a reference.
PBT(normalise_reference, 150000, 4000000) {
	static const std::vector<std::string> atoms { "\\", "\n", "\r", "\r\n", "\n\r", " ", "\t", "a", "b", "{", "=", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\\\\", "\\\n", "\\\r\n  ", "\xe3\x80\x80", "\\\n\xe2\x80\x83 " };
	std::vector<std::string> chars; // characters
	std::string text;
	size_t n = d.size(14);
	for (size_t i = 0; i < n; ++i) text += d.pick(atoms);
	for (size_t i = 0; i < text.size();) { unsigned char c = (unsigned char) text[i]; size_t k = c < 0x80 ? 1 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : 4; chars.push_back(text.substr(i, k)); i += k; }
	std::string e;
	size_t special = 0;
	for (size_t i = 0; i < chars.size(); ++i) {
		if (chars[i] != "\\") { e += chars[i]; continue; }
		++special;
		if (++i == chars.size()) break;
		if (chars[i] != "\n" && chars[i] != "\r") { e += chars[i]; continue; }
		// A continued line: one line break (of one or two characters) and the indentation disappear.
		if (i + 1 < chars.size() && ((chars[i] == "\n" && chars[i + 1] == "\r") || (chars[i] == "\r" && chars[i + 1] == "\n"))) ++i;
		else if (i + 1 < chars.size() && (chars[i + 1] == "\n" || chars[i + 1] == "\r")) d.discard(); // two line breaks: not something the language produces
		while (i + 1 < chars.size() && (chars[i + 1] == " " || chars[i + 1] == "\t" || chars[i + 1] == "\xe3\x80\x80" || chars[i + 1] == "\xe2\x80\x83")) ++i;
	}
	d.note(hexText(text));
	d.nontrivial(special > 0);
	// A continuation whose indentation reaches the end.
	std::string got = norm(text);
	CHECK(got == e, "got " << pbt::show(got) << " expected " << pbt::show(e));
}

#endif
