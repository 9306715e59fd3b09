From 49c09485a62b1eccdb8957e1f322eeddd505e449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:12 +0000
Subject: [PATCH 001/143] fix: Character::isOctalDigit accepted 8 and 9,
 Character::isValid rejected U+10FFFF

---
 src/main/cpp/Balau/Type/Character.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Type/Character.hpp b/src/main/cpp/Balau/Type/Character.hpp
index b44c4ee..95631c4 100644
--- a/src/main/cpp/Balau/Type/Character.hpp
+++ b/src/main/cpp/Balau/Type/Character.hpp
@@ -71,7 +71,7 @@ struct Character {
 	/// Is the specified code point one of the ASCII characters 0-7.
 	///
 	static bool isOctalDigit(char32_t c) {
-		return c >= U'0' && c <= U'9';
+		return c >= U'0' && c <= U'7';
 	}
 
 	///
@@ -301,7 +301,7 @@ struct Character {
 	/////////////////////////////// Validation ////////////////////////////////
 
 	static bool isValid(char32_t c) {
-		return c < 0x10FFFF; // Maximum Unicode code point value.
+		return c <= 0x10FFFF; // Maximum Unicode code point value.
 	}
 
 	//////////////////////////////// Mutation /////////////////////////////////
-- 
2.43.0


From 67270dde436fb52b0925811fd3c45e2ae0190023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:12 +0000
Subject: [PATCH 002/143] fix: toString wrote one byte past its buffer for the
 lowest value of a signed integer type

---
 src/main/cpp/Balau/Type/Impl/ToStringImpl.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Type/Impl/ToStringImpl.hpp b/src/main/cpp/Balau/Type/Impl/ToStringImpl.hpp
index a628f3d..406e0d3 100644
--- a/src/main/cpp/Balau/Type/Impl/ToStringImpl.hpp
+++ b/src/main/cpp/Balau/Type/Impl/ToStringImpl.hpp
@@ -37,8 +37,9 @@ template <typename T, unsigned long N = std::numeric_limits<T>::max()> struct Ch
 	static constexpr size_t count = CharacterCount<T, N / 10>::count + 1;
 };
 
+// Sign and terminating NUL.
 template <typename T> struct CharacterCount<T, 0> {
-	static constexpr size_t count = 1;
+	static constexpr size_t count = 2;
 };
 
 template <typename AllocatorT, typename T>
-- 
2.43.0


From 6df31d2b9a8ad30957cf2d63d10e6b10dcd475f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:12 +0000
Subject: [PATCH 003/143] fix: fromString accepted numbers which are out of
 range for the type

---
 .../cpp/Balau/Type/Impl/FromStringImpl.hpp    | 51 +++++++++++++++++++
 1 file changed, 51 insertions(+)

diff --git a/src/main/cpp/Balau/Type/Impl/FromStringImpl.hpp b/src/main/cpp/Balau/Type/Impl/FromStringImpl.hpp
index 6ac0ba3..5c082ef 100644
--- a/src/main/cpp/Balau/Type/Impl/FromStringImpl.hpp
+++ b/src/main/cpp/Balau/Type/Impl/FromStringImpl.hpp
@@ -25,6 +25,9 @@
 #include <boost/lexical_cast.hpp>
 #include <boost/locale.hpp>
 
+#include <cerrno>
+#include <cmath>
+
 namespace Balau::Impl {
 
 // Checks that the string is not empty and throws a conversion exception if it is.
@@ -75,6 +78,21 @@ inline void validateIntegerConversion(const std::string & value, const char * st
 	}
 }
 
+// Checks that the conversion did not saturate. Must be called directly after the conversion.
+inline void validateConversionRange(const std::string & value, bool outOfRange) {
+	if (outOfRange) {
+		ThrowBalauException(
+			  Balau::Exception::ConversionException
+			, ::toString("String to numeric conversion of \"", value, "\" is out of bounds.")
+		);
+	}
+}
+
+// The strtoul functions accept negative numbers and wrap them around.
+template <typename T> inline bool wrappedAround(const std::string & value, T n) {
+	return n != 0 && value.find('-') != std::string::npos;
+}
+
 template <typename DstT, typename SrcT> void checkLowerLimit(SrcT n) {
 	const SrcT lowerLimit = std::numeric_limits<DstT>::lowest();
 
@@ -124,8 +142,11 @@ inline long stringToLong(std::string_view value) {
 	Impl::validateFromStringValue(value);
 	char * strEnd;
 	const auto s = std::string(value);
+	errno = 0;
 	long n = std::strtol(s.c_str(), &strEnd, 10);
+	const bool outOfRange = errno == ERANGE;
 	Impl::validateIntegerConversion(s, strEnd);
+	Impl::validateConversionRange(s, outOfRange);
 	return n;
 }
 
@@ -133,8 +154,11 @@ inline long stringToLong(std::string_view value, int base) {
 	Impl::validateFromStringValue(value);
 	char * strEnd;
 	const auto s = std::string(value);
+	errno = 0;
 	long n = std::strtol(s.c_str(), &strEnd, base);
+	const bool outOfRange = errno == ERANGE;
 	Impl::validateIntegerConversion(s, strEnd);
+	Impl::validateConversionRange(s, outOfRange);
 	return n;
 }
 
@@ -142,8 +166,11 @@ inline long long stringToLongLong(std::string_view value) {
 	Impl::validateFromStringValue(value);
 	char * strEnd;
 	const auto s = std::string(value);
+	errno = 0;
 	long long n = std::strtoll(s.c_str(), &strEnd, 10);
+	const bool outOfRange = errno == ERANGE;
 	Impl::validateIntegerConversion(s, strEnd);
+	Impl::validateConversionRange(s, outOfRange);
 	return n;
 }
 
@@ -151,8 +178,11 @@ inline long long stringToLongLong(std::string_view value, int base) {
 	Impl::validateFromStringValue(value);
 	char * strEnd;
 	const auto s = std::string(value);
+	errno = 0;
 	long long n = std::strtoll(s.c_str(), &strEnd, base);
+	const bool outOfRange = errno == ERANGE;
 	Impl::validateIntegerConversion(s, strEnd);
+	Impl::validateConversionRange(s, outOfRange);
 	return n;
 }
 
@@ -160,8 +190,11 @@ inline unsigned long stringToUnsignedLong(std::string_view value) {
 	Impl::validateFromStringValue(value);
 	char * strEnd;
 	const auto s = std::string(value);
+	errno = 0;
 	unsigned long n = std::strtoul(s.c_str(), &strEnd, 10);
+	const bool outOfRange = errno == ERANGE || wrappedAround(s, n);
 	Impl::validateIntegerConversion(s, strEnd);
+	Impl::validateConversionRange(s, outOfRange);
 	return n;
 }
 
@@ -169,8 +202,11 @@ inline unsigned long stringToUnsignedLong(std::string_view value, int base) {
 	Impl::validateFromStringValue(value);
 	char * strEnd;
 	const auto s = std::string(value);
+	errno = 0;
 	unsigned long n = std::strtoul(s.c_str(), &strEnd, base);
+	const bool outOfRange = errno == ERANGE || wrappedAround(s, n);
 	Impl::validateIntegerConversion(s, strEnd);
+	Impl::validateConversionRange(s, outOfRange);
 	return n;
 }
 
@@ -178,8 +214,11 @@ inline unsigned long long stringToUnsignedLongLong(std::string_view value) {
 	Impl::validateFromStringValue(value);
 	char * strEnd;
 	const auto s = std::string(value);
+	errno = 0;
 	unsigned long long n = std::strtoull(s.c_str(), &strEnd, 10);
+	const bool outOfRange = errno == ERANGE || wrappedAround(s, n);
 	Impl::validateIntegerConversion(s, strEnd);
+	Impl::validateConversionRange(s, outOfRange);
 	return n;
 }
 
@@ -187,8 +226,11 @@ inline unsigned long long stringToUnsignedLongLong(std::string_view value, int b
 	Impl::validateFromStringValue(value);
 	char * strEnd;
 	const auto s = std::string(value);
+	errno = 0;
 	unsigned long long n = std::strtoull(s.c_str(), &strEnd, base);
+	const bool outOfRange = errno == ERANGE || wrappedAround(s, n);
 	Impl::validateIntegerConversion(s, strEnd);
+	Impl::validateConversionRange(s, outOfRange);
 	return n;
 }
 
@@ -196,8 +238,11 @@ inline float stringToFloat(std::string_view value) {
 	Impl::validateFromStringValue(value);
 	char * strEnd;
 	const auto s = std::string(value);
+	errno = 0;
 	float n = std::strtof(s.c_str(), &strEnd);
+	const bool outOfRange = errno == ERANGE && std::isinf(n);
 	Impl::validateIntegerConversion(s, strEnd);
+	Impl::validateConversionRange(s, outOfRange);
 	return n;
 }
 
@@ -205,8 +250,11 @@ inline double stringToDouble(std::string_view value) {
 	Impl::validateFromStringValue(value);
 	char * strEnd;
 	const auto s = std::string(value);
+	errno = 0;
 	double n = std::strtod(s.c_str(), &strEnd);
+	const bool outOfRange = errno == ERANGE && std::isinf(n);
 	Impl::validateIntegerConversion(s, strEnd);
+	Impl::validateConversionRange(s, outOfRange);
 	return n;
 }
 
@@ -214,8 +262,11 @@ inline long double stringToLongDouble(std::string_view value) {
 	Impl::validateFromStringValue(value);
 	char * strEnd;
 	const auto s = std::string(value);
+	errno = 0;
 	long double n = std::strtold(s.c_str(), &strEnd);
+	const bool outOfRange = errno == ERANGE && std::isinf(n);
 	Impl::validateIntegerConversion(s, strEnd);
+	Impl::validateConversionRange(s, outOfRange);
 	return n;
 }
 
-- 
2.43.0


From ea499722b8edca92cb45a429b7161e67e23a27bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:12 +0000
Subject: [PATCH 004/143] fix: fromString(bool) read past the end of text that
 ends in a truncated UTF-8 sequence

---
 src/main/cpp/Balau/Type/FromString.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/main/cpp/Balau/Type/FromString.hpp b/src/main/cpp/Balau/Type/FromString.hpp
index a2ba759..7a76e8d 100644
--- a/src/main/cpp/Balau/Type/FromString.hpp
+++ b/src/main/cpp/Balau/Type/FromString.hpp
@@ -28,6 +28,8 @@
 #include <Balau/Type/Impl/FromStringImpl.hpp>
 #include <Balau/Util/Strings.hpp>
 
+#include <boost/algorithm/string/predicate.hpp>
+
 ///////////////////// Universal UTF-8 from-string function //////////////////////
 
 ///
@@ -507,11 +509,9 @@ inline void fromString(long double & destination, std::string_view value) {
 /// @throw ConversionException when the conversion fails
 ///
 inline void fromString(bool & destination, std::string_view value) {
-	const std::string lower = Balau::Util::Strings::toLower(value);
-
-	if (lower == "true") {
+	if (boost::algorithm::iequals(value, "true", std::locale::classic())) {
 		destination = true;
-	} else if (lower == "false") {
+	} else if (boost::algorithm::iequals(value, "false", std::locale::classic())) {
 		destination = false;
 	} else {
 		ThrowBalauException(
-- 
2.43.0


From f68a432811be96204d21f8dee0cd433f5bb7d3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:21 +0000
Subject: [PATCH 005/143] fix: property comments starting with '!' were
 rejected, empty comments held the line break, comments ending in a backslash
 swallowed the next line

---
 .../Balau/Lang/Property/Parser/PropertyParser.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/main/cpp/Balau/Lang/Property/Parser/PropertyParser.hpp b/src/main/cpp/Balau/Lang/Property/Parser/PropertyParser.hpp
index b71fab4..8c0ab33 100644
--- a/src/main/cpp/Balau/Lang/Property/Parser/PropertyParser.hpp
+++ b/src/main/cpp/Balau/Lang/Property/Parser/PropertyParser.hpp
@@ -371,7 +371,7 @@ class PropertyParser {
 		scannedTokens.expect(PropertyToken::Arobase, "Bug? Expected arobase token to begin comment production.");
 		ScannedToken token = scannedTokens.get();
 		CodeSpan startCodeSpan = token.codeSpan;
-		std::string_view text = token.text;
+		std::string_view text = token.text.substr(0, 0);
 
 		while (token.token != PropertyToken::LineBreak && token.token != PropertyToken::EndOfFile) {
 			text = extend(text, token.text);
@@ -388,12 +388,21 @@ class PropertyParser {
 	}
 
 	private: std::unique_ptr<AST::PropertyNode> produceComment() {
-		scannedTokens.expect(PropertyToken::Hash, "Bug? Expected hash token to begin comment production.");
+		scannedTokens.expect(
+			  std::vector<PropertyToken> { PropertyToken::Hash, PropertyToken::Exclamation }
+			, "Bug? Expected hash or exclamation token to begin comment production."
+		);
 		ScannedToken token = scannedTokens.get();
 		CodeSpan startCodeSpan = token.codeSpan;
-		std::string_view text = token.text;
+		std::string_view text = token.text.substr(0, 0);
 
 		while (token.token != PropertyToken::LineBreak && token.token != PropertyToken::EndOfFile) {
+			if (token.token == PropertyToken::EscapedLineBreak) {
+				// Comments are not continued.
+				text = extend(text, token.text.substr(0, 1));
+				break;
+			}
+
 			text = extend(text, token.text);
 			scannedTokens.consume();
 			token = scannedTokens.get();
-- 
2.43.0


From 995b1db0e5bece6c532657986ed0a08e6c6cced5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:37 +0000
Subject: [PATCH 006/143] fix: CompositeProperty equality compared its children
 by address

---
 src/main/cpp/Balau/Lang/Property/Lang/PropertyAst.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Lang/Property/Lang/PropertyAst.hpp b/src/main/cpp/Balau/Lang/Property/Lang/PropertyAst.hpp
index 670622d..6d1b988 100644
--- a/src/main/cpp/Balau/Lang/Property/Lang/PropertyAst.hpp
+++ b/src/main/cpp/Balau/Lang/Property/Lang/PropertyAst.hpp
@@ -32,6 +32,7 @@
 #include <Balau/Lang/Common/CodeSpan.hpp>
 #include <Balau/Type/Character.hpp>
 
+#include <algorithm>
 #include <memory>
 #include <string>
 #include <vector>
@@ -339,7 +340,10 @@ class CompositeProperty final : public PropertyNode {
 			ret = false;
 		} else {
 			ret = name == o->name
-				&& nodes == o->nodes
+				&& std::equal(
+					  nodes.begin(), nodes.end(), o->nodes.begin(), o->nodes.end()
+					, [] (const auto & l, const auto & r) { return *l == *r; }
+				)
 				&& PropertyNode::operator == (rhs);
 		}
 
-- 
2.43.0


From 6e3c414b09dcd9e2957cf3053d41d22f1ed6e871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:37 +0000
Subject: [PATCH 007/143] fix: property normalisation mishandled escapes that
 directly follow a continued line's indentation

---
 .../cpp/Balau/Lang/Property/Lang/PropertyAst.hpp     | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/main/cpp/Balau/Lang/Property/Lang/PropertyAst.hpp b/src/main/cpp/Balau/Lang/Property/Lang/PropertyAst.hpp
index 6d1b988..14d30ba 100644
--- a/src/main/cpp/Balau/Lang/Property/Lang/PropertyAst.hpp
+++ b/src/main/cpp/Balau/Lang/Property/Lang/PropertyAst.hpp
@@ -116,7 +116,7 @@ class PropertyNode { // Abstract
 				switch (c) {
 					case U'\r':
 					case U'\n': {
-						skipLineContinuation(input, inOffset, output, outOffset);
+						skipLineContinuation(input, inOffset);
 						break;
 					}
 
@@ -148,14 +148,12 @@ class PropertyNode { // Abstract
 	protected: PropertyNode(PropertyNode && rhs) noexcept
 		: codeSpan(rhs.codeSpan) {}
 
-	private: static void skipLineContinuation(const std::string_view & input,
-	                                          int & inOffset,
-	                                          std::string & output,
-	                                          int & outOffset) {
+	private: static void skipLineContinuation(const std::string_view & input, int & inOffset) {
 		if (inOffset == (int) input.length()) {
 			return; // Last character pair is an escaped CR or LF.
 		}
 
+		int previousOffset = inOffset;
 		char32_t c = Character::getNextUtf8Safe(input, inOffset);
 
 		if (c == U'\r' || c == U'\n') {
@@ -163,6 +161,7 @@ class PropertyNode { // Abstract
 				return; // Last character triplet is an escaped CRLF or LFCR.
 			}
 
+			previousOffset = inOffset;
 			c = Character::getNextUtf8Safe(input, inOffset);
 		}
 
@@ -171,10 +170,11 @@ class PropertyNode { // Abstract
 				return; // End of string.
 			}
 
+			previousOffset = inOffset;
 			c = Character::getNextUtf8Safe(input, inOffset);
 		}
 
-		Character::setUtf8AndAdvanceOffset(output, outOffset, c);
+		inOffset = previousOffset; // The first character after the indentation could be escaped.
 	}
 };
 
-- 
2.43.0


From e049fcf67789c2631ece54db5b678be59f7a4af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:37 +0000
Subject: [PATCH 008/143] fix: scanner did not reject invalid UTF-8, and its
 string views of short texts dangled after the text was moved

---
 .../cpp/Balau/Lang/Common/AbstractScanner.hpp | 30 ++++++++++++++-----
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/main/cpp/Balau/Lang/Common/AbstractScanner.hpp b/src/main/cpp/Balau/Lang/Common/AbstractScanner.hpp
index 1ad720e..3bddc6e 100644
--- a/src/main/cpp/Balau/Lang/Common/AbstractScanner.hpp
+++ b/src/main/cpp/Balau/Lang/Common/AbstractScanner.hpp
@@ -85,21 +85,25 @@ template <typename TokenT> class AbstractScanner {
 		: currentChar(0)
 		, uri(std::move(uri_))
 		, text(::toString(uri->byteReadResource()->readStream()))
-		, currentEndOffset(0) {}
+		, currentEndOffset(0) {
+		ensureStableText();
+	}
 
 	protected: AbstractScanner(std::shared_ptr<Resource::Uri> uri_, std::istream & inputStream_)
 		: currentChar(0)
 		, uri(std::move(uri_))
 		, text(::toString(inputStream_))
-		, currentEndOffset(0) {}
+		, currentEndOffset(0) {
+		ensureStableText();
+	}
 
 	protected: void readNextChar() {
 		if (currentEndOffset == (int) text.length()) {
 			currentChar = std::char_traits<char32_t>::eof();
 		} else {
-			currentChar = Character::getNextUtf8(text, currentEndOffset);
+			currentChar = Character::getNextUtf8Safe(text, currentEndOffset);
 
-			if (currentChar < 0) {
+			if ((int32_t) currentChar < 0) {
 				ThrowBalauException(
 					  Exception::SyntaxErrorException
 					, "Invalid UTF-8 text found during parsing of string literal", calculateCurrentCodeSpan()
@@ -118,9 +122,9 @@ template <typename TokenT> class AbstractScanner {
 		if (currentEndOffset == (int) text.length()) {
 			currentChar = std::char_traits<char32_t>::eof();
 		} else {
-			currentChar = Character::getNextUtf8(text, currentEndOffset);
+			currentChar = Character::getNextUtf8Safe(text, currentEndOffset);
 
-			if (currentChar < 0) {
+			if ((int32_t) currentChar < 0) {
 				container.push_back(errorReport(calculateCurrentCodeSpan()));
 				return false;
 			}
@@ -245,11 +249,23 @@ template <typename TokenT> class AbstractScanner {
 	}
 
 	protected: CodeSpan calculateCurrentCodeSpan() {
+		// The token being scanned is not present in the token vector yet.
+		std::vector<TokenT> scanned = tokens;
+		std::vector<unsigned int> offsets = startOffsets;
+		scanned.emplace_back(TokenT::EndOfFile);
+		offsets.emplace_back((unsigned int) currentStartOffset);
+
 		return RandomAccessScannedTokens<TokenT>::determineCodeSpan(
-			text, tokens, startOffsets, (unsigned int) tokens.size() - 1
+			text.substr(0, (size_t) currentEndOffset), scanned, offsets, (unsigned int) scanned.size() - 1
 		);
 	}
 
+	// Text that is short enough to be stored inside the string object would be relocated
+	// when the string is moved, invalidating the string views which refer to the text.
+	private: void ensureStableText() {
+		text.reserve(sizeof(std::string));
+	}
+
 	//
 	// This method is implemented by derived classes and contains the actual scanning logic.
 	//
-- 
2.43.0


From 131f18e2c1f5be8df09ed1bc7818f39c39ba926e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:37 +0000
Subject: [PATCH 009/143] fix: scanned token positions were wrong after reset,
 put back and line breaks within tokens

---
 .../cpp/Balau/Lang/Common/ScannedTokens.hpp   | 75 ++++++++++++-------
 1 file changed, 48 insertions(+), 27 deletions(-)

diff --git a/src/main/cpp/Balau/Lang/Common/ScannedTokens.hpp b/src/main/cpp/Balau/Lang/Common/ScannedTokens.hpp
index 9ddb8c0..e864cbb 100644
--- a/src/main/cpp/Balau/Lang/Common/ScannedTokens.hpp
+++ b/src/main/cpp/Balau/Lang/Common/ScannedTokens.hpp
@@ -244,11 +244,11 @@ template <typename TokenT> class RandomAccessScannedTokens final {
 				, lineLengthCache
 			);
 
-			startPosition = endPosition;
-
 			if (index == thisIndex) {
 				return CodeSpan(startPosition, endPosition);
 			}
+
+			startPosition = endPosition;
 		}
 
 		determineNewEnd(
@@ -322,6 +322,20 @@ template <typename TokenT> class RandomAccessScannedTokens final {
 		return builtCodeSpans;
 	}
 
+	// Does the token's text contain one or more line breaks? This includes the tokens
+	// that the language uses for line breaks which are escaped.
+	private: static bool isMultiLine(TokenT token,
+	                                 const std::string & fullText,
+	                                 unsigned int thisOffset,
+	                                 unsigned int nextOffset) {
+		if (token == TokenT::LineBreak || token == TokenT::CommentLine || token == TokenT::CommentBlock) {
+			return true;
+		}
+
+		const auto thisText = std::string_view(fullText).substr(thisOffset, nextOffset - thisOffset);
+		return thisText.find_first_of("\r\n") != std::string_view::npos;
+	}
+
 	// Updates in place the supplied end position for advancing.
 	// Also updates the line length cache when a line break is encountered.
 	private: static void determineNewEnd(TokenT token,
@@ -332,7 +346,7 @@ template <typename TokenT> class RandomAccessScannedTokens final {
 	                                     std::vector<unsigned int> & lineLengthCache) {
 		static const std::regex endLineBreakRegex = std::regex("(\n\r|\r\n|\n|\r)$");
 
-		if (token == TokenT::LineBreak || token == TokenT::CommentLine || token == TokenT::CommentBlock) {
+		if (isMultiLine(token, fullText, thisOffset, nextOffset)) {
 			const std::string thisText = fullText.substr(thisOffset, nextOffset - thisOffset);
 			const std::vector<size_t> lineLengths = Util::Strings::lineLengths(thisText);
 			const bool hasCurrentLine = !std::regex_search(thisText, endLineBreakRegex);
@@ -383,17 +397,18 @@ template <typename TokenT> class RandomAccessScannedTokens final {
 	}
 
 	// Updates in place the supplied start position when retreating.
-	// Also updates the line length cache when a line break is encountered.
+	// The line length cache must contain the lengths of the lines which end in the token.
 	private: static void determineNewStart(TokenT token,
 	                                       const std::string & fullText,
 	                                       unsigned int thisOffset,
 	                                       unsigned int nextOffset,
 	                                       CodePosition & startPosition,
-	                                       std::vector<unsigned int> & lineLengthCache) {
+	                                       const std::vector<unsigned int> & lineLengthCache) {
 		static const std::regex lineBreakRegex = std::regex("\n\r|\r\n|\n|\r");
 
-		if (token == TokenT::LineBreak || token == TokenT::CommentLine || token == TokenT::CommentBlock) {
-			const unsigned int lineBreaks = (unsigned int) Util::Strings::occurrences(fullText.substr(thisOffset, nextOffset - thisOffset), lineBreakRegex);
+		if (isMultiLine(token, fullText, thisOffset, nextOffset)) {
+			const std::string thisText = fullText.substr(thisOffset, nextOffset - thisOffset);
+			const unsigned int lineBreaks = (unsigned int) Util::Strings::occurrences(thisText, lineBreakRegex);
 
 			using ::toString;
 
@@ -405,17 +420,16 @@ template <typename TokenT> class RandomAccessScannedTokens final {
 						, "call but no line end was found in the supplied text. "
 						, "Start offset = ", thisOffset
 						, ", end offset = ", nextOffset
-						, ", token text = ", fullText.substr(thisOffset, nextOffset - thisOffset)
+						, ", token text = ", thisText
 					);
 				}
 			);
 
-			for (size_t m = 0; m < lineBreaks; m++) {
-				startPosition.column = lineLengthCache.back() + 1; // one indexed column position
-				lineLengthCache.pop_back();
-			}
-
 			startPosition.line -= lineBreaks;
+			startPosition.column = lineLengthCache[startPosition.line - 1] + 1; // one indexed column position
+
+			// The token could start with text that is not a line break.
+			startPosition.column -= (unsigned int) Util::Strings::lineLengths(thisText)[0];
 		} else {
 			startPosition.column -= nextOffset - thisOffset;
 		}
@@ -478,16 +492,7 @@ template <typename TokenT> class ScannerApiScannedTokens final {
 		, currentIndex(0)
 		, currentCodeSpan(1, 1, 1, 1) {
 		whitespaceModeStack.push(WhitespaceMode::DoNotConsume);
-		if (scannedTokens.tokens.size() > 1) {
-			RandomAccessScannedTokens<TokenT>::determineNewEnd(
-				  scannedTokens.tokens[0]
-				, scannedTokens.text
-				, scannedTokens.startOffsets[0]
-				, scannedTokens.startOffsets[1]
-				, currentCodeSpan.end
-				, lineLengthCache
-			);
-		}
+		determineFirstEnd();
 	}
 
 	///
@@ -502,6 +507,7 @@ template <typename TokenT> class ScannerApiScannedTokens final {
 		currentIndex = 0;
 		currentCodeSpan = CodeSpan(1, 1, 1, 1);
 		lineLengthCache.clear();
+		determineFirstEnd();
 	}
 
 	///
@@ -742,10 +748,8 @@ template <typename TokenT> class ScannerApiScannedTokens final {
 			);
 		}
 
-		const auto steps = currentIndex - marker.index;
-
-		for (size_t m = 0; m < steps; m++) {
-			putBack();
+		while (currentIndex > marker.index) {
+			retreatCurrentIndex();
 		}
 	}
 
@@ -921,6 +925,20 @@ template <typename TokenT> class ScannerApiScannedTokens final {
 
 	////////////////////////// Private implementation /////////////////////////
 
+	// Calculate the end point of the first token.
+	private: void determineFirstEnd() {
+		if (scannedTokens.tokens.size() > 1) {
+			RandomAccessScannedTokens<TokenT>::determineNewEnd(
+				  scannedTokens.tokens[0]
+				, scannedTokens.text
+				, scannedTokens.startOffsets[0]
+				, scannedTokens.startOffsets[1]
+				, currentCodeSpan.end
+				, lineLengthCache
+			);
+		}
+	}
+
 	private: void advanceCurrentIndex() {
 		if (currentIndex == scannedTokens.tokens.size() - 1) {
 			return;
@@ -947,6 +965,9 @@ template <typename TokenT> class ScannerApiScannedTokens final {
 			return;
 		}
 
+		// Discard the lengths of the lines which end in the abandoned token, but
+		// keep those of the lines which end in the token that becomes current.
+		lineLengthCache.resize(currentCodeSpan.start.line - 1);
 		currentCodeSpan.end = currentCodeSpan.start;
 
 		RandomAccessScannedTokens<TokenT>::determineNewStart(
-- 
2.43.0


From 1dd9eac2f05bb8a49b7c65efa596de2d9df14f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:35 +0000
Subject: [PATCH 010/143] fix: ArrayBlockingQueue full and empty read the
 element count while other threads write it

---
 src/main/cpp/Balau/Container/ArrayBlockingQueue.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Container/ArrayBlockingQueue.hpp b/src/main/cpp/Balau/Container/ArrayBlockingQueue.hpp
index db186db..560db62 100644
--- a/src/main/cpp/Balau/Container/ArrayBlockingQueue.hpp
+++ b/src/main/cpp/Balau/Container/ArrayBlockingQueue.hpp
@@ -29,6 +29,7 @@
 #include <Balau/Container/BlockingQueue.hpp>
 #include <Balau/Type/StdTypes.hpp>
 
+#include <atomic>
 #include <condition_variable>
 
 namespace Balau::Container {
@@ -233,7 +234,7 @@ template <typename T> class ArrayBlockingQueue : public BlockingQueue<T> {
 	}
 
 	private: std::vector<T> elements;
-	private: size_t count;
+	private: std::atomic<size_t> count; // Read outside of the lock by full and empty.
 	private: size_t head;
 	private: size_t tail;
 	private: std::mutex mutex;
-- 
2.43.0


From c02cbdb09a4962cd6273f678f8c8a4b8670a391f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:57 +0000
Subject: [PATCH 011/143] fix: ObjectTrieNode end iterator stopped before the
 last child

---
 src/main/cpp/Balau/Container/ObjectTrie.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/main/cpp/Balau/Container/ObjectTrie.hpp b/src/main/cpp/Balau/Container/ObjectTrie.hpp
index bebd49f..e26f713 100644
--- a/src/main/cpp/Balau/Container/ObjectTrie.hpp
+++ b/src/main/cpp/Balau/Container/ObjectTrie.hpp
@@ -753,28 +753,28 @@ template <typename T> class ObjectTrieNode {
 	/// Get a depth iterator positioned at the beginning of the trie.
 	///
 	public: ObjectTrieNode<T> * begin() {
-		return &children[0];
+		return children.data();
 	}
 
 	///
 	/// Get a const depth iterator positioned at the beginning of the trie.
 	///
 	public: const ObjectTrieNode<T> * begin() const {
-		return &children[0];
+		return children.data();
 	}
 
 	///
 	/// Get an iterator positioned at the end of the vector of children.
 	///
 	public: ObjectTrieNode<T> * end() {
-		return &children.back();
+		return children.data() + children.size();
 	}
 
 	///
 	/// Get a const iterator positioned at the end of the vector of children.
 	///
 	public: const ObjectTrieNode<T> * end() const {
-		return &children.back();
+		return children.data() + children.size();
 	}
 
 	////////////////////////// Private implementation /////////////////////////
-- 
2.43.0


From ec92684bffa9b2aebd90c5aa814538ab3f73b636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:33 +0000
Subject: [PATCH 012/143] fix: ObjectTrie cascade functions were not applied
 below the root or the first level

---
 src/main/cpp/Balau/Container/ObjectTrie.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/main/cpp/Balau/Container/ObjectTrie.hpp b/src/main/cpp/Balau/Container/ObjectTrie.hpp
index e26f713..fe42483 100644
--- a/src/main/cpp/Balau/Container/ObjectTrie.hpp
+++ b/src/main/cpp/Balau/Container/ObjectTrie.hpp
@@ -813,16 +813,16 @@ template <typename T> class ObjectTrieNode {
 	}
 
 	// Used in the public cascade copy method.
-	private: void cascadeChildren(const ObjectTrieNode<T> & toCascade) {
+	private: template <typename U> void cascadeChildren(const ObjectTrieNode<T> & toCascade, U copyFunction) {
 		for (size_t m = 0; m < toCascade.children.size(); m++) {
 			const ObjectTrieNode<T> & childToCascade = toCascade.children[m];
 			ObjectTrieNode<T> * selfChild = find(childToCascade.value);
 
 			if (selfChild) {
-				selfChild->value = childToCascade.value;
-				selfChild->cascadeChildren(childToCascade);
+				selfChild->value = copyFunction(childToCascade.value);
+				selfChild->cascadeChildren(childToCascade, copyFunction);
 			} else {
-				addAndReturnChild(childToCascade.value).cascadeChildren(childToCascade);
+				addAndReturnChild(copyFunction(childToCascade.value)).cascadeChildren(childToCascade, copyFunction);
 			}
 		}
 	}
@@ -835,9 +835,9 @@ template <typename T> class ObjectTrieNode {
 
 			if (selfChild) {
 				selfChild->value = moveFunction(childToCascade.value);
-				selfChild->cascadeChildren(childToCascade);
+				selfChild->cascadeChildren(childToCascade, moveFunction);
 			} else {
-				addAndReturnChild(moveFunction(childToCascade.value)).cascadeChildren(childToCascade);
+				addAndReturnChild(moveFunction(childToCascade.value)).cascadeChildren(childToCascade, moveFunction);
 			}
 		}
 	}
@@ -2298,7 +2298,7 @@ template <typename T> class ObjectTrie {
 		}
 
 		trieRoot.value = copyFunction(toCascade.trieRoot.value);
-		trieRoot.cascadeChildren(toCascade.trieRoot);
+		trieRoot.cascadeChildren(toCascade.trieRoot, copyFunction);
 	}
 
 	///
-- 
2.43.0


From 5502306c84bd5da646ff6fc2e0dd9b1f2b0ca876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:42 +0000
Subject: [PATCH 013/143] fix: ObjectTrie copy assignment did not compile

---
 src/main/cpp/Balau/Container/ObjectTrie.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Container/ObjectTrie.hpp b/src/main/cpp/Balau/Container/ObjectTrie.hpp
index fe42483..a2429b8 100644
--- a/src/main/cpp/Balau/Container/ObjectTrie.hpp
+++ b/src/main/cpp/Balau/Container/ObjectTrie.hpp
@@ -799,7 +799,7 @@ template <typename T> class ObjectTrieNode {
 	private: explicit ObjectTrieNode(T && value_)
 		: value(std::move(value_)) {}
 
-	private: ObjectTrieNode<T> & operator = (const ObjectTrieNode<T> & copy) {
+	public: ObjectTrieNode<T> & operator = (const ObjectTrieNode<T> & copy) {
 		value = copy.value;
 		children = copy.children;
 		return *this;
-- 
2.43.0


From f64d2550cb6a093ea8b5319cd21aca296e5932e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:28 +0000
Subject: [PATCH 014/143] fix: injector callbacks of configurations were stored
 before the lists that hold them were constructed

---
 src/main/cpp/Balau/Application/Injector.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Application/Injector.hpp b/src/main/cpp/Balau/Application/Injector.hpp
index 65f02a7..c2ca116 100644
--- a/src/main/cpp/Balau/Application/Injector.hpp
+++ b/src/main/cpp/Balau/Application/Injector.hpp
@@ -1737,12 +1737,14 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 
 	// Main injector state.
 	private: const std::shared_ptr<const Injector> parent;
-	private: const std::shared_ptr<const Impl::BindingMap> bindings;
 
-	// Data structures for callbacks.
+	// Data structures for callbacks. Declared before the bindings because
+	// the creation of the bindings registers the configurations' callbacks.
 	private: mutable std::list<std::function<void (const Injector& )>> postConstructionCalls;
 	private: mutable std::list<std::function<void ()>> preDestructionCalls;
 	private: mutable std::recursive_mutex callSync;
+
+	private: const std::shared_ptr<const Impl::BindingMap> bindings;
 };
 
 } // namespace Balau
-- 
2.43.0


From 40278eff749fc8bb3f569597e11a1114aca2f436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:28 +0000
Subject: [PATCH 015/143] fix: registerStaticSingleton kept a view of the
 supplied binding name

---
 src/main/cpp/Balau/Application/Injector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Application/Injector.hpp b/src/main/cpp/Balau/Application/Injector.hpp
index c2ca116..2cd16a6 100644
--- a/src/main/cpp/Balau/Application/Injector.hpp
+++ b/src/main/cpp/Balau/Application/Injector.hpp
@@ -126,7 +126,7 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 	/// @param name an optional binding name
 	///
 	public: template <typename T> void registerStaticSingleton(std::shared_ptr<T> * ptrPtr, std::string_view name = std::string_view()) const {
-		registerPostConstructionCallImpl([ptrPtr, name] (const Injector & injector) { *ptrPtr  = injector.getShared<T>(name); });
+		registerPostConstructionCallImpl([ptrPtr, name = std::string(name)] (const Injector & injector) { *ptrPtr = injector.getShared<T>(name); });
 		registerPreDestructionCallImpl([ptrPtr] () { ptrPtr->reset(); });
 	}
 
-- 
2.43.0


From 9992d3454db3922f3d049090b099844be4877209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:28 +0000
Subject: [PATCH 016/143] fix: const promotion ignored the non-const bindings
 of child injectors

---
 src/main/cpp/Balau/Application/Injector.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/main/cpp/Balau/Application/Injector.hpp b/src/main/cpp/Balau/Application/Injector.hpp
index 2cd16a6..5b78770 100644
--- a/src/main/cpp/Balau/Application/Injector.hpp
+++ b/src/main/cpp/Balau/Application/Injector.hpp
@@ -1263,7 +1263,7 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 
 		if (binding != nullptr) {
 			return getReferenceInstance<T>(*binding);
-		} else if (parent) {
+		} else if (parent && (!Impl::BindingKeyType<Impl::BindingMetaType::Reference, T>::isConst || parent->hasBinding(keyView))) {
 			return parent->getReferenceImpl<T>(name);
 		} else {
 			// Try a non-const binding?
@@ -1283,7 +1283,7 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 
 		if (binding != nullptr) {
 			return getReferenceInstance<T>(*binding);
-		} else if (parent) {
+		} else if (parent && (!Impl::BindingKeyType<Impl::BindingMetaType::Reference, T>::isConst || parent->hasBinding(keyView))) {
 			return parent->getReferenceImpl<T>(name, defaultValue);
 		} else {
 			// Try a non-const binding?
@@ -1353,7 +1353,7 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 			// If we are here, then BaseT == Injector and the cast disappears.
 			auto ptr = std::const_pointer_cast<Injector>(shared_from_this());
 			return std::reinterpret_pointer_cast<BaseT>(ptr);
-		} else if (parent) {
+		} else if (parent && (!Impl::BindingKeyType<Impl::BindingMetaType::Shared, BaseT>::isConst || parent->hasBinding(keyView))) {
 			return parent->getSharedImpl<BaseT>(name);
 		} else {
 			// Try a non-const binding?
@@ -1378,7 +1378,7 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 			// If we are here, then BaseT == Injector and the cast disappears.
 			auto ptr = std::const_pointer_cast<Injector>(shared_from_this());
 			return std::reinterpret_pointer_cast<BaseT>(ptr);
-		} else if (parent) {
+		} else if (parent && (!Impl::BindingKeyType<Impl::BindingMetaType::Shared, BaseT>::isConst || parent->hasBinding(keyView))) {
 			return parent->getSharedImpl<BaseT>(name, defaultValue);
 		} else {
 			// Try a non-const binding?
@@ -1403,7 +1403,7 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 			// If we are here, then BaseT == Injector and the cast disappears.
 			auto ptr = std::const_pointer_cast<Injector>(shared_from_this());
 			return std::reinterpret_pointer_cast<BaseT>(ptr);
-		} else if (parent) {
+		} else if (parent && (!Impl::BindingKeyType<Impl::BindingMetaType::Shared, BaseT>::isConst || parent->hasBinding(keyView))) {
 			return parent->getSharedImpl<BaseT>(name, defaultValueSupplier);
 		} else {
 			// Try a non-const binding?
-- 
2.43.0


From 16e59c11cd36b0e281e6e394654baa927842cf76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:49 +0000
Subject: [PATCH 017/143] fix: static singletons registered by application
 configurations were never set

---
 src/main/cpp/Balau/Application/ApplicationConfiguration.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Application/ApplicationConfiguration.hpp b/src/main/cpp/Balau/Application/ApplicationConfiguration.hpp
index ff5de47..8ae4301 100644
--- a/src/main/cpp/Balau/Application/ApplicationConfiguration.hpp
+++ b/src/main/cpp/Balau/Application/ApplicationConfiguration.hpp
@@ -99,7 +99,11 @@ class ApplicationConfiguration : public InjectorConfiguration {
 	/// @param name an optional binding name
 	///
 	protected: template <typename T> void registerStaticSingleton(std::shared_ptr<T> * ptrPtr, std::string_view name = std::string_view()) const {
-		staticSingletonPostConstructionCalls.emplace_back(new StaticSingletonRegistration<T>(ptrPtr, name));
+		// The injector is an incomplete type here, hence the generic lambda.
+		postConstructionCalls.push_back(
+			[ptrPtr, name = std::string(name)] (const auto & injector) { *ptrPtr = injector.template getShared<T>(name); }
+		);
+
 		preDestructionCalls.push_back([ptrPtr] () { ptrPtr->reset(); });
 	}
 
-- 
2.43.0


From 6e77e884a252789aa5e2517c00d486ef2fe0c947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:10 +0000
Subject: [PATCH 018/143] fix: requests for unique pointers to const objects
 never found the binding

---
 .../cpp/Balau/Application/Impl/BindingKey.hpp | 15 ++++++--
 src/main/cpp/Balau/Application/Injector.hpp   | 36 ++++++++++---------
 2 files changed, 33 insertions(+), 18 deletions(-)

diff --git a/src/main/cpp/Balau/Application/Impl/BindingKey.hpp b/src/main/cpp/Balau/Application/Impl/BindingKey.hpp
index 75c5ea2..65c6fea 100644
--- a/src/main/cpp/Balau/Application/Impl/BindingKey.hpp
+++ b/src/main/cpp/Balau/Application/Impl/BindingKey.hpp
@@ -265,6 +265,17 @@ inline bool operator != (const BindingKey & lhs, const BindingKey & rhs) {
 
 ///////////////////////////////////////////////////////////////////////////////
 
+//
+// The deleter type of the binding that supplies unique pointers to const objects.
+//
+template <typename T, typename DeleterT> struct ConstPromotedDeleter {
+	using type = DeleterT;
+};
+
+template <typename T> struct ConstPromotedDeleter<T, std::default_delete<const T>> {
+	using type = std::default_delete<T>;
+};
+
 // Create a "Value" binding key.
 template <typename T> struct CreateBindingKey {
 	Impl::BindingKey operator () (std::string name) const {
@@ -296,14 +307,14 @@ template <typename T, typename DeleterT> struct CreateBindingKey<const std::uniq
 // Create a "Unique" binding key.
 template <typename T, typename DeleterT> struct CreateBindingKey<std::unique_ptr<const T, DeleterT>> {
 	Impl::BindingKey operator () (std::string name) const {
-		return Impl::BindingKey(typeid(BindingKeyType<Impl::BindingMetaType::Unique, T, DeleterT>), std::move(name));
+		return Impl::BindingKey(typeid(BindingKeyType<Impl::BindingMetaType::Unique, T, typename ConstPromotedDeleter<T, DeleterT>::type>), std::move(name));
 	}
 };
 
 // Create a "Unique" binding key.
 template <typename T, typename DeleterT> struct CreateBindingKey<const std::unique_ptr<const T, DeleterT>> {
 	Impl::BindingKey operator () (std::string name) const {
-		return Impl::BindingKey(typeid(BindingKeyType<Impl::BindingMetaType::Unique, T, DeleterT>), std::move(name));
+		return Impl::BindingKey(typeid(BindingKeyType<Impl::BindingMetaType::Unique, T, typename ConstPromotedDeleter<T, DeleterT>::type>), std::move(name));
 	}
 };
 
diff --git a/src/main/cpp/Balau/Application/Injector.hpp b/src/main/cpp/Balau/Application/Injector.hpp
index 5b78770..81f5e12 100644
--- a/src/main/cpp/Balau/Application/Injector.hpp
+++ b/src/main/cpp/Balau/Application/Injector.hpp
@@ -829,16 +829,18 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 	// This immediately promotes to std::unique_ptr<T>.
 	//
 	private: template <typename BaseT, typename DeleterT> struct GetInstance<std::unique_ptr<const BaseT, DeleterT>> {
-		std::unique_ptr<BaseT, DeleterT> get(std::string_view name) const {
-			return injector->getUniqueImpl<BaseT, DeleterT>(name);
+		using PromotedDeleterT = typename Impl::ConstPromotedDeleter<BaseT, DeleterT>::type;
+
+		std::unique_ptr<BaseT, PromotedDeleterT> get(std::string_view name) const {
+			return injector->getUniqueImpl<BaseT, PromotedDeleterT>(name);
 		}
 
-		std::unique_ptr<BaseT, DeleterT> get(std::string_view name, std::unique_ptr<BaseT, DeleterT> & defaultValue) const {
-			return injector->getUniqueImpl<BaseT, DeleterT>(name, defaultValue);
+		std::unique_ptr<BaseT, PromotedDeleterT> get(std::string_view name, std::unique_ptr<BaseT, PromotedDeleterT> & defaultValue) const {
+			return injector->getUniqueImpl<BaseT, PromotedDeleterT>(name, defaultValue);
 		}
 
-		std::unique_ptr<BaseT, DeleterT> get(std::string_view name, const std::function<std::unique_ptr<BaseT, DeleterT> ()> & defaultValueSupplier) const {
-			return injector->getUniqueImpl<BaseT, DeleterT>(name, defaultValueSupplier);
+		std::unique_ptr<BaseT, PromotedDeleterT> get(std::string_view name, const std::function<std::unique_ptr<BaseT, PromotedDeleterT> ()> & defaultValueSupplier) const {
+			return injector->getUniqueImpl<BaseT, PromotedDeleterT>(name, defaultValueSupplier);
 		}
 
 		bool hasBinding(std::string_view name) const {
@@ -846,11 +848,11 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 		}
 
 		static Impl::BindingKey createBindingKey(std::string name) {
-			return Impl::BindingKey(typeid(Impl::BindingKeyType<Impl::BindingMetaType::Unique, BaseT, DeleterT>), std::move(name));
+			return Impl::BindingKey(typeid(Impl::BindingKeyType<Impl::BindingMetaType::Unique, BaseT, PromotedDeleterT>), std::move(name));
 		}
 
 		static Impl::BindingKeyView createBindingKeyView(std::string_view name) {
-			return Impl::BindingKeyView(typeid(Impl::BindingKeyType<Impl::BindingMetaType::Unique, BaseT, DeleterT>), name);
+			return Impl::BindingKeyView(typeid(Impl::BindingKeyType<Impl::BindingMetaType::Unique, BaseT, PromotedDeleterT>), name);
 		}
 
 		explicit GetInstance(const Injector * injector_) : injector(injector_) {}
@@ -862,16 +864,18 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 	// This immediately promotes to std::unique_ptr<T>.
 	//
 	private: template <typename BaseT, typename DeleterT> struct GetInstance<const std::unique_ptr<const BaseT, DeleterT>> {
-		std::unique_ptr<BaseT, DeleterT> get(std::string_view name) const {
-			return injector->getUniqueImpl<BaseT, DeleterT>(name);
+		using PromotedDeleterT = typename Impl::ConstPromotedDeleter<BaseT, DeleterT>::type;
+
+		std::unique_ptr<BaseT, PromotedDeleterT> get(std::string_view name) const {
+			return injector->getUniqueImpl<BaseT, PromotedDeleterT>(name);
 		}
 
-		std::unique_ptr<BaseT, DeleterT> get(std::string_view name, std::unique_ptr<BaseT, DeleterT> & defaultValue) const {
-			return injector->getUniqueImpl<BaseT, DeleterT>(name, defaultValue);
+		std::unique_ptr<BaseT, PromotedDeleterT> get(std::string_view name, std::unique_ptr<BaseT, PromotedDeleterT> & defaultValue) const {
+			return injector->getUniqueImpl<BaseT, PromotedDeleterT>(name, defaultValue);
 		}
 
-		std::unique_ptr<BaseT, DeleterT> get(std::string_view name, const std::function<std::unique_ptr<BaseT, DeleterT> ()> & defaultValueSupplier) const {
-			return injector->getUniqueImpl<BaseT, DeleterT>(name, defaultValueSupplier);
+		std::unique_ptr<BaseT, PromotedDeleterT> get(std::string_view name, const std::function<std::unique_ptr<BaseT, PromotedDeleterT> ()> & defaultValueSupplier) const {
+			return injector->getUniqueImpl<BaseT, PromotedDeleterT>(name, defaultValueSupplier);
 		}
 
 		bool hasBinding(std::string_view name) const {
@@ -879,11 +883,11 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 		}
 
 		static Impl::BindingKey createBindingKey(std::string name) {
-			return Impl::BindingKey(typeid(Impl::BindingKeyType<Impl::BindingMetaType::Unique, BaseT, DeleterT>), std::move(name));
+			return Impl::BindingKey(typeid(Impl::BindingKeyType<Impl::BindingMetaType::Unique, BaseT, PromotedDeleterT>), std::move(name));
 		}
 
 		static Impl::BindingKeyView createBindingKeyView(std::string_view name) {
-			return Impl::BindingKeyView(typeid(Impl::BindingKeyType<Impl::BindingMetaType::Unique, BaseT, DeleterT>), name);
+			return Impl::BindingKeyView(typeid(Impl::BindingKeyType<Impl::BindingMetaType::Unique, BaseT, PromotedDeleterT>), name);
 		}
 
 		explicit GetInstance(const Injector * injector_) : injector(injector_) {}
-- 
2.43.0


From 3857108d856cc8db9b670f654bcf356c4124b8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:11 +0000
Subject: [PATCH 019/143] fix: injector validation refused dependencies that
 ancestors or promoted bindings supply

---
 .../cpp/Balau/Application/Impl/Binding.hpp    | 36 ++++++++++++++++---
 .../cpp/Balau/Application/Impl/BindingKey.hpp | 32 +++++++++++++----
 src/main/cpp/Balau/Application/Injector.hpp   |  6 +++-
 3 files changed, 62 insertions(+), 12 deletions(-)

diff --git a/src/main/cpp/Balau/Application/Impl/Binding.hpp b/src/main/cpp/Balau/Application/Impl/Binding.hpp
index ff059d7..2d19c6d 100644
--- a/src/main/cpp/Balau/Application/Impl/Binding.hpp
+++ b/src/main/cpp/Balau/Application/Impl/Binding.hpp
@@ -26,6 +26,8 @@
 #include <Balau/Concurrent/ThreadLocalInstance.hpp>
 #include <Balau/Exception/InjectorExceptions.hpp>
 
+#include <functional>
+
 // Avoid false positives.
 #pragma clang diagnostic push
 #pragma ide diagnostic ignored "OCUnusedGlobalDeclarationInspection"
@@ -70,11 +72,16 @@ class AbstractBinding {
 	//
 	// Also handled are the injector binding key special cases.
 	//
+	// Dependencies which are not in the graph may be supplied by the ancestors of
+	// the injector. As in the get instance calls, the whole hierarchy is checked
+	// for the type of the dependency before the types that are promoted.
+	//
 	private: void registerDependencies(BindingGraph & bindingGraph,
 	                                   const BindingKey & weakInjectorKey,
 	                                   const BindingKey & constWeakInjectorKey,
 	                                   const BindingKey & sharedInjectorKey,
-	                                   const BindingKey & constSharedInjectorKey) const {
+	                                   const BindingKey & constSharedInjectorKey,
+	                                   const std::function<bool (const BindingKey &)> & isInAncestor) const {
 		const std::vector<BindingKey> dependencyKeys = getDependencyKeys();
 
 		for (const auto & dependencyKey : dependencyKeys) {
@@ -86,9 +93,30 @@ class AbstractBinding {
 				|| dependencyKey == sharedInjectorKey
 				|| dependencyKey == constSharedInjectorKey) {
 				continue; // Special case of injector being injected.
-			} else if (bindingGraph.hasDependency(dependencyKey)) {
-				bindingGraph.addRelationship(dependencyKey, thisKey);
-			} else {
+			}
+
+			std::vector<BindingKey> candidateKeys { dependencyKey };
+
+			for (const auto & promotion : dependencyKey.getPromotions()) {
+				candidateKeys.emplace_back(promotion, dependencyKey.getName());
+			}
+
+			bool found = false;
+
+			for (const auto & candidateKey : candidateKeys) {
+				if (bindingGraph.hasDependency(candidateKey)) {
+					bindingGraph.addRelationship(candidateKey, thisKey);
+					found = true;
+				} else {
+					found = isInAncestor(candidateKey);
+				}
+
+				if (found) {
+					break;
+				}
+			}
+
+			if (!found) {
 				ThrowBalauException(Exception::MissingDependencyException, thisKey, dependencyKey);
 			}
 		}
diff --git a/src/main/cpp/Balau/Application/Impl/BindingKey.hpp b/src/main/cpp/Balau/Application/Impl/BindingKey.hpp
index 65c6fea..f947f23 100644
--- a/src/main/cpp/Balau/Application/Impl/BindingKey.hpp
+++ b/src/main/cpp/Balau/Application/Impl/BindingKey.hpp
@@ -27,6 +27,7 @@
 #include <string>
 #include <typeindex>
 #include <utility>
+#include <vector>
 
 namespace Balau::Impl {
 
@@ -202,6 +203,16 @@ class BindingKey final {
 		#endif
 	{}
 
+	// Create the key of a dependency which may be supplied by promotion.
+	public: BindingKey(std::type_index type_, std::string && name_, std::vector<std::type_index> promotions_)
+		: type(type_)
+		  , name(std::move(name_))
+		  , promotions(std::move(promotions_))
+		#ifdef BALAU_DEBUG
+		, typeStr(demangleBindingKeyTypeString(boost::core::demangle(type.name())))
+		#endif
+	{}
+
 	public: BindingKey(const BindingKey & rhs) = default;
 	public: BindingKey(BindingKey && rhs) = default;
 
@@ -216,6 +227,12 @@ class BindingKey final {
 		return name;
 	}
 
+	// The binding types that supply the dependency when there is no binding of
+	// the key's own type, in order of preference (not part of the key's identity).
+	public: const std::vector<std::type_index> & getPromotions() const {
+		return promotions;
+	}
+
 	public: size_t hashcode() const noexcept {
 		return std::hash<std::type_index>()(type) ^ (41 * std::hash<std::string>()(name));
 	}
@@ -231,6 +248,7 @@ class BindingKey final {
 
 	private: std::type_index type;
 	private: std::string name;
+	private: std::vector<std::type_index> promotions;
 
 	#ifdef BALAU_DEBUG
 	// Displays the demangled binding key type in the debugger.
@@ -328,7 +346,7 @@ template <typename T> struct CreateBindingKey<T &> {
 // Create a const "Reference" binding key.
 template <typename T> struct CreateBindingKey<const T &> {
 	Impl::BindingKey operator () (std::string name) const {
-		return Impl::BindingKey(typeid(BindingKeyType<Impl::BindingMetaType::Reference, const T>), std::move(name));
+		return Impl::BindingKey(typeid(BindingKeyType<Impl::BindingMetaType::Reference, const T>), std::move(name), { typeid(BindingKeyType<Impl::BindingMetaType::Reference, T>) });
 	}
 };
 
@@ -349,42 +367,42 @@ template <typename T> struct CreateBindingKey<const std::shared_ptr<T>> {
 // Create a "Shared" const binding key.
 template <typename T> struct CreateBindingKey<std::shared_ptr<const T>> {
 	Impl::BindingKey operator () (std::string name) const {
-		return Impl::BindingKey(typeid(BindingKeyType<Impl::BindingMetaType::Shared, const T>), std::move(name));
+		return Impl::BindingKey(typeid(BindingKeyType<Impl::BindingMetaType::Shared, const T>), std::move(name), { typeid(BindingKeyType<Impl::BindingMetaType::Shared, T>) });
 	}
 };
 
 // Create a const "Shared" const binding key.
 template <typename T> struct CreateBindingKey<const std::shared_ptr<const T>> {
 	Impl::BindingKey operator () (std::string name) const {
-		return Impl::BindingKey(typeid(BindingKeyType<Impl::BindingMetaType::Shared, const T>), std::move(name));
+		return Impl::BindingKey(typeid(BindingKeyType<Impl::BindingMetaType::Shared, const T>), std::move(name), { typeid(BindingKeyType<Impl::BindingMetaType::Shared, T>) });
 	}
 };
 
 // Create a "Shared" weak binding key.
 template <typename T> struct CreateBindingKey<std::weak_ptr<T>> {
 	Impl::BindingKey operator () (std::string name) const {
-		return Impl::BindingKey(typeid(BindingKeyType<Impl::BindingMetaType::WeakPromotion, T>), std::move(name));
+		return Impl::BindingKey(typeid(BindingKeyType<Impl::BindingMetaType::WeakPromotion, T>), std::move(name), { typeid(BindingKeyType<Impl::BindingMetaType::Shared, T>) });
 	}
 };
 
 // Create a const weak "Shared" binding key.
 template <typename T> struct CreateBindingKey<const std::weak_ptr<T>> {
 	Impl::BindingKey operator () (std::string name) const {
-		return Impl::BindingKey(typeid(BindingKeyType<Impl::BindingMetaType::WeakPromotion, T>), std::move(name));
+		return Impl::BindingKey(typeid(BindingKeyType<Impl::BindingMetaType::WeakPromotion, T>), std::move(name), { typeid(BindingKeyType<Impl::BindingMetaType::Shared, T>) });
 	}
 };
 
 // Create a weak "Shared" const binding key.
 template <typename T> struct CreateBindingKey<std::weak_ptr<const T>> {
 	Impl::BindingKey operator () (std::string name) const {
-		return Impl::BindingKey(typeid(BindingKeyType<Impl::BindingMetaType::WeakPromotion, const T>), std::move(name));
+		return Impl::BindingKey(typeid(BindingKeyType<Impl::BindingMetaType::WeakPromotion, const T>), std::move(name), { typeid(BindingKeyType<Impl::BindingMetaType::Shared, const T>), typeid(BindingKeyType<Impl::BindingMetaType::Shared, T>) });
 	}
 };
 
 // Create a const weak "Shared" const binding key.
 template <typename T> struct CreateBindingKey<const std::weak_ptr<const T>> {
 	Impl::BindingKey operator () (std::string name) const {
-		return Impl::BindingKey(typeid(BindingKeyType<Impl::BindingMetaType::WeakPromotion, const T>), std::move(name));
+		return Impl::BindingKey(typeid(BindingKeyType<Impl::BindingMetaType::WeakPromotion, const T>), std::move(name), { typeid(BindingKeyType<Impl::BindingMetaType::Shared, const T>), typeid(BindingKeyType<Impl::BindingMetaType::Shared, T>) });
 	}
 };
 
diff --git a/src/main/cpp/Balau/Application/Injector.hpp b/src/main/cpp/Balau/Application/Injector.hpp
index 81f5e12..32f9195 100644
--- a/src/main/cpp/Balau/Application/Injector.hpp
+++ b/src/main/cpp/Balau/Application/Injector.hpp
@@ -1675,9 +1675,13 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 		const Impl::BindingKey sharedKey(typeid(Impl::BindingKeyType<shared, Injector>), "");
 		const Impl::BindingKey constSharedKey(typeid(Impl::BindingKeyType<shared, const Injector>), "");
 
+		const std::function<bool (const Impl::BindingKey &)> isInAncestor = [this] (const Impl::BindingKey & key) {
+			return parent && parent->hasBinding(Impl::BindingKeyView(key));
+		};
+
 		// Validate and create the edges of the dependency graph.
 		for (const auto & binding : (*bindings)) {
-			binding.value->registerDependencies(graph, weakKey, constWeakKey, sharedKey, constSharedKey);
+			binding.value->registerDependencies(graph, weakKey, constWeakKey, sharedKey, constSharedKey, isInAncestor);
 		}
 
 		std::vector<std::pair<Impl::BindingKey, Impl::BindingKey>> cycleEdges;
-- 
2.43.0


From 8d1e80e8a96bbe848be1fb69e5d2c6fbb9cb4ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:52 +0000
Subject: [PATCH 020/143] fix: configurations added by added configurations
 were dropped

---
 src/main/cpp/Balau/Application/Injector.hpp | 26 +++++++++++++--------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/main/cpp/Balau/Application/Injector.hpp b/src/main/cpp/Balau/Application/Injector.hpp
index 32f9195..2fca44e 100644
--- a/src/main/cpp/Balau/Application/Injector.hpp
+++ b/src/main/cpp/Balau/Application/Injector.hpp
@@ -1556,6 +1556,20 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 		}
 	}
 
+	// Execute the supplied added configurations, and those that they add in turn.
+	private: void addExtraConfiguration(std::vector<const InjectorConfiguration *> extraConfiguration,
+	                                    std::vector<std::shared_ptr<Impl::BindingBuilderBase>> & builders) {
+		for (size_t m = 0; m < extraConfiguration.size(); ++m) {
+			const auto * c = extraConfiguration[m];
+			Util::Containers::append(builders, c->execute());
+			Util::Containers::append(postConstructionCalls, c->getPostConstructionCalls());
+			Util::Containers::append(preDestructionCalls, c->getPreDestructionCalls());
+
+			auto extra = c->getExtraConfiguration();
+			extraConfiguration.insert(extraConfiguration.end(), extra.begin(), extra.end());
+		}
+	}
+
 	private: template <typename ... Conf> std::shared_ptr<Impl::BindingMap> createBindings(const Conf & ... conf) {
 		std::vector<const InjectorConfiguration *> extraConfiguration;
 
@@ -1574,11 +1588,7 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 			, conf ...
 		);
 
-		for (const auto & c : extraConfiguration) {
-			Util::Containers::append(builders, c->execute());
-			Util::Containers::append(postConstructionCalls, c->getPostConstructionCalls());
-			Util::Containers::append(preDestructionCalls, c->getPreDestructionCalls());
-		}
+		addExtraConfiguration(std::move(extraConfiguration), builders);
 
 		auto theBindings = std::make_shared<Impl::BindingMap>();
 
@@ -1606,11 +1616,7 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 		}
 
 		for (const auto & c : conf) {
-			for (const auto * c2 : c->getExtraConfiguration()) {
-				Util::Vectors::append(builders, c2->execute());
-				Util::Containers::append(postConstructionCalls, c2->getPostConstructionCalls());
-				Util::Containers::append(preDestructionCalls, c2->getPreDestructionCalls());
-			}
+			addExtraConfiguration(c->getExtraConfiguration(), builders);
 		}
 
 		auto theBindings = std::make_shared<Impl::BindingMap>();
-- 
2.43.0


From 7830e1506ea86e44e10f46a9e4b5af608eb2520e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:02 +0000
Subject: [PATCH 021/143] fix: a configuration that was executed again repeated
 its callbacks and added configurations

---
 .../cpp/Balau/Application/ApplicationConfiguration.hpp   | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/main/cpp/Balau/Application/ApplicationConfiguration.hpp b/src/main/cpp/Balau/Application/ApplicationConfiguration.hpp
index 8ae4301..6447c97 100644
--- a/src/main/cpp/Balau/Application/ApplicationConfiguration.hpp
+++ b/src/main/cpp/Balau/Application/ApplicationConfiguration.hpp
@@ -29,6 +29,8 @@
 #include <Balau/Application/BindingBuilder.hpp>
 #include <Balau/Application/InjectorConfiguration.hpp>
 
+#include <utility>
+
 namespace Balau {
 
 ///
@@ -111,19 +113,20 @@ class ApplicationConfiguration : public InjectorConfiguration {
 
 	private: std::vector<std::shared_ptr<Impl::BindingBuilderBase>> build() const override {
 		// Move the vector because it is not used anymore after this call from the injector.
+		// The methods below do the same, so that the configuration may be executed again.
 		return std::move(builders);
 	}
 
 	public: std::vector<const InjectorConfiguration *> getExtraConfiguration() const override {
-		return extraConfiguration;
+		return std::exchange(extraConfiguration, {});
 	}
 
 	public: std::list<std::function<void (const Injector& )>> getPostConstructionCalls() const override {
-		return postConstructionCalls;
+		return std::exchange(postConstructionCalls, {});
 	}
 
 	public: std::list<std::function<void ()>> getPreDestructionCalls() const override {
-		return preDestructionCalls;
+		return std::exchange(preDestructionCalls, {});
 	}
 
 	public: std::list<std::unique_ptr<StaticSingletonRegistrationBase>> getStaticSingletonPostConstructionCalls() const override {
-- 
2.43.0


From 946b17a3f39913af85bae93457e60dc62e5e0a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:49 +0000
Subject: [PATCH 022/143] fix: threads saw the thread local instances of
 destroyed objects; ThreadLocalInstance of types without a default constructor
 did not compile

---
 .../Balau/Concurrent/ThreadLocalInstance.hpp  | 77 ++++++++++++++-----
 1 file changed, 59 insertions(+), 18 deletions(-)

diff --git a/src/main/cpp/Balau/Concurrent/ThreadLocalInstance.hpp b/src/main/cpp/Balau/Concurrent/ThreadLocalInstance.hpp
index 3af30cf..3e1e08a 100644
--- a/src/main/cpp/Balau/Concurrent/ThreadLocalInstance.hpp
+++ b/src/main/cpp/Balau/Concurrent/ThreadLocalInstance.hpp
@@ -28,8 +28,61 @@
 
 #include <boost/thread/tss.hpp>
 
+#include <atomic>
+#include <cstdint>
+#include <functional>
+#include <memory>
+#include <type_traits>
+
 namespace Balau::Concurrent {
 
+namespace Impl {
+
+//
+// The storage of a thread local instance.
+//
+// The thread specific pointers of other threads are not reset when a thread specific
+// pointer is destroyed. In order to prevent threads from seeing the instances of a
+// destroyed object which was located at the same address, the identity of the owner
+// is recorded along with the instance.
+//
+class ThreadLocalStorage {
+	private: struct Slot {
+		const uint64_t owner;
+
+		explicit Slot(uint64_t owner_) : owner(owner_) {}
+		virtual ~Slot() = default;
+	};
+
+	private: template <typename T> struct InstanceSlot : public Slot {
+		std::unique_ptr<T> instance;
+
+		InstanceSlot(uint64_t owner_, T * instance_) : Slot(owner_), instance(instance_) {}
+	};
+
+	public: template <typename T> T & get(const std::function<T * ()> & instantiate) {
+		Slot * current = slot.get();
+
+		if (!current || current->owner != identity) {
+			std::unique_ptr<T> instance(instantiate());
+			current = new InstanceSlot<T>(identity, instance.release());
+			slot.reset(current);
+		}
+
+		return *static_cast<InstanceSlot<T> *>(current)->instance;
+	}
+
+	private: static uint64_t nextIdentity() {
+		static std::atomic<uint64_t> previous { 0 };
+		return ++previous;
+	}
+
+	private: const uint64_t identity = nextIdentity();
+	private: boost::thread_specific_ptr<Slot> slot;
+};
+
+} // namespace Impl
+
 ///
 /// A thread local instance that can be used as a class member instance variable.
 ///
@@ -41,45 +94,33 @@ class ThreadLocalInstance<T, typename std::enable_if<std::is_default_constructib
 	/// Get the thread local instance, instantiating it with the default constructor if necessary.
 	///
 	public: T & operator () () {
-		if (!instance.get()) {
-			instance.reset(new T);
-		}
-
-		return *instance.get();
+		return storage.get<T>([] () { return new T; });
 	}
 
 	///
 	/// Get the thread local instance, instantiating it with the supplied function if necessary.
 	///
 	public: T & operator () (std::function<T * ()> instantiate) {
-		if (!instance.get()) {
-			instance.reset(instantiate());
-		}
-
-		return *instance.get();
+		return storage.get<T>(instantiate);
 	}
 
 	///////////////////////// Private implementation //////////////////////////
 
-	private: boost::thread_specific_ptr<T> instance;
+	private: Impl::ThreadLocalStorage storage;
 };
 
 template <typename T>
-class ThreadLocalInstance<T, std::negation<typename std::enable_if<std::is_default_constructible<T>::value>::type>> {
+class ThreadLocalInstance<T, typename std::enable_if<!std::is_default_constructible<T>::value>::type> {
 	///
 	/// Get the thread local instance, instantiating it with the supplied function if necessary.
 	///
 	public: T & operator () (std::function<T * ()> instantiate) {
-		if (instance.get()) {
-			instance.reset(instantiate());
-		}
-
-		return *instance.get();
+		return storage.get<T>(instantiate);
 	}
 
 	///////////////////////// Private implementation //////////////////////////
 
-	private: boost::thread_specific_ptr<T> instance;
+	private: Impl::ThreadLocalStorage storage;
 };
 
 } // namespace Balau::Concurrent
-- 
2.43.0


From 92919810fb15c0d5edc2cadddd4692b1ff0b63fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:46 +0000
Subject: [PATCH 023/143] fix: an environment configuration created with a
 source string used the string as its type specification

---
 src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp b/src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp
index 8d8f0bc..48f8c9e 100644
--- a/src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp
+++ b/src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp
@@ -244,7 +244,7 @@ class EnvironmentConfiguration : public InjectorConfiguration {
 	///
 	public: EnvironmentConfiguration(const std::string & input, const std::string & typeSpecifications_)
 		: propertyStringsHierarchy(Impl::EnvironmentConfigurationBuilderUtils::createPropertyStrings({ std::shared_ptr<Resource::Uri>(new Resource::StringUri(input)) }))
-		, typeSpecificationsUris(Util::Vectors::pushBack(std::shared_ptr<Resource::Uri>(new Resource::StringUri(input)))) {}
+		, typeSpecificationsUris(Util::Vectors::pushBack(std::shared_ptr<Resource::Uri>(new Resource::StringUri(typeSpecifications_)))) {}
 
 	///
 	/// Create an environment configuration by specifying the source properties file.
-- 
2.43.0


From a3b09d9a5df77e81c776610b465d2fca03ef0db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:46 +0000
Subject: [PATCH 024/143] fix: an environment configuration that was executed
 again dereferenced moved factories

---
 src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp b/src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp
index 48f8c9e..03a91bb 100644
--- a/src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp
+++ b/src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp
@@ -444,6 +444,9 @@ class EnvironmentConfiguration : public InjectorConfiguration {
 				}
 			}
 
+			// The configure method is called again if the configuration is executed again.
+			allBindingBuilderFactories.clear();
+
 			builders = Impl::EnvironmentConfigurationBuilder::build(
 				typeSpecificationsUris, bindingBuilderFactoriesVector, propertyStringsHierarchy
 			);
-- 
2.43.0


From 92bfc021d27b10e780af3159c1a68a52c2380a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:47 +0000
Subject: [PATCH 025/143] fix: a composite property with a value type
 specification was undefined behaviour

---
 .../Impl/EnvironmentConfigurationBuilder.hpp          | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Application/Impl/EnvironmentConfigurationBuilder.hpp b/src/main/cpp/Balau/Application/Impl/EnvironmentConfigurationBuilder.hpp
index acab863..c275249 100644
--- a/src/main/cpp/Balau/Application/Impl/EnvironmentConfigurationBuilder.hpp
+++ b/src/main/cpp/Balau/Application/Impl/EnvironmentConfigurationBuilder.hpp
@@ -126,6 +126,13 @@ class EnvironmentConfigurationBuilder {
 	//
 	private: static void cascade(PropertyBindingBuilderFactoryPtr & dst,
 	                             const PropertyBindingBuilderFactoryPtr & src) {
+		if (!dst->isComposite()) {
+			ThrowBalauException(
+				  Exception::EnvironmentConfigurationException
+				, "Incompatible type specifications found."
+			);
+		}
+
 		auto & dstComposite = *static_cast<CompositePropertyBindingBuilderFactory *>(dst.get());
 		const auto & srcComposite = *static_cast<const CompositePropertyBindingBuilderFactory *>(src.get());
 
@@ -259,7 +266,7 @@ class EnvironmentConfigurationBuilder {
 						//);
 					}
 
-					if (factoryNodeIter != bindingBuilderFactoryVector.end()) {
+					if (factoryNodeIter != bindingBuilderFactoryVector.end() && (*factoryNodeIter)->isComposite()) {
 						auto childLevel = std::unique_ptr<BindingMap>(new BindingMap);
 						auto & ptr = *factoryNodeIter;
 						const auto & compositeBindingBuilderFactory = *static_cast<const CompositePropertyBindingBuilderFactory *>(ptr.get());
@@ -347,7 +354,7 @@ class EnvironmentConfigurationBuilder {
 						//);
 					}
 
-					if (factoryNodeIter != bindingBuilderFactoryVector.end()) {
+					if (factoryNodeIter != bindingBuilderFactoryVector.end() && (*factoryNodeIter)->isComposite()) {
 						auto childLevel = std::unique_ptr<BindingMap>(new BindingMap);
 						auto & ptr = *factoryNodeIter;
 						const auto & compositeBindingBuilderFactory = *static_cast<const CompositePropertyBindingBuilderFactory *>(ptr.get());
-- 
2.43.0


From 8492074b08038d9c96baa0bf65b13d74f5b56b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:47 +0000
Subject: [PATCH 026/143] fix: default values containing several equals
 characters were truncated in type specifications

---
 .../Application/Impl/PropertyTypeSpecificationVisitor.hpp  | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/main/cpp/Balau/Application/Impl/PropertyTypeSpecificationVisitor.hpp b/src/main/cpp/Balau/Application/Impl/PropertyTypeSpecificationVisitor.hpp
index 443aa0f..e3fb19b 100644
--- a/src/main/cpp/Balau/Application/Impl/PropertyTypeSpecificationVisitor.hpp
+++ b/src/main/cpp/Balau/Application/Impl/PropertyTypeSpecificationVisitor.hpp
@@ -106,11 +106,8 @@ class PropertyTypeSpecificationVisitor : public Lang::Property::PropertyVisitor
 				// It is up to the fromString function to determine if the text is value or not.
 				typeSpecification = std::string(splitValue[0]);
 
-				const size_t length = std::accumulate(
-					splitValue.begin(), splitValue.end(), 0U, [] (size_t l, auto & s) { return l + s.length(); }
-				) - splitValue[0].length();
-
-				defaultValue = std::string(splitValue[1].data(), length);
+				const std::string_view value = object.getValue();
+				defaultValue = std::string(value.substr(splitValue[1].data() - value.data()));
 			}
 		}
 
-- 
2.43.0


From 544fc33cd5bfb9879649ba9427247564bc77414f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:47 +0000
Subject: [PATCH 027/143] fix: nested includes of property files were resolved
 against the outermost uri

---
 .../Impl/EnvironmentConfigurationBuilderUtils.hpp     | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/main/cpp/Balau/Application/Impl/EnvironmentConfigurationBuilderUtils.hpp b/src/main/cpp/Balau/Application/Impl/EnvironmentConfigurationBuilderUtils.hpp
index 6e206a8..9036139 100644
--- a/src/main/cpp/Balau/Application/Impl/EnvironmentConfigurationBuilderUtils.hpp
+++ b/src/main/cpp/Balau/Application/Impl/EnvironmentConfigurationBuilderUtils.hpp
@@ -48,8 +48,9 @@ class EnvironmentConfigurationBuilderUtils {
 	};
 
 	private: class PropertyTrieCreator : public Lang::Property::PropertyVisitor {
-		public: PropertyTrieCreator(const std::shared_ptr<Resource::Uri> & uri_)
-			: uri(uri_) {}
+		public: PropertyTrieCreator(const std::shared_ptr<Resource::Uri> & uri) {
+			uris.push(uri);
+		}
 
 		public: void visit(Lang::Property::Payload & payload, const Lang::Property::AST::Properties & object) override {
 			for (auto & node : object.getNodes()) {
@@ -75,9 +76,11 @@ class EnvironmentConfigurationBuilderUtils {
 		}
 
 		public: void visit(Lang::Property::Payload & payload, const Lang::Property::AST::IncludePropertyNode & object) override {
-			std::shared_ptr<Resource::Uri> resolvedUri = Resource::UriResolve::resolve(*uri, Util::Strings::trim(object.getText()));
+			std::shared_ptr<Resource::Uri> resolvedUri = Resource::UriResolve::resolve(*uris.top(), Util::Strings::trim(object.getText()));
 			auto properties = Lang::Property::PropertyParserService::parse(resolvedUri);
+			uris.push(resolvedUri);
 			visit(payload, properties);
+			uris.pop();
 		}
 
 		public: void visit(Lang::Property::Payload & payload, const Lang::Property::AST::CommentPropertyNode & object) override {
@@ -88,7 +91,7 @@ class EnvironmentConfigurationBuilderUtils {
 			// NOP
 		}
 
-		private: const std::shared_ptr<Resource::Uri> uri;
+		private: std::stack<std::shared_ptr<Resource::Uri>> uris;
 	};
 
 	// Parse the properties sources and create an object trie containing property string objects.
-- 
2.43.0


From 116647aa58eecd71985337138bc27f93402aa040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:47 +0000
Subject: [PATCH 028/143] fix: unique environment properties with default
 values did not compile

---
 .../Application/EnvironmentConfiguration.hpp     | 16 +++++++++++++++-
 .../Balau/Application/EnvironmentProperties.hpp  |  2 +-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp b/src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp
index 03a91bb..e60ece6 100644
--- a/src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp
+++ b/src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp
@@ -373,7 +373,21 @@ class EnvironmentConfiguration : public InjectorConfiguration {
 	protected: template <typename BaseT>
 	Impl::PropertyBindingBuilderFactoryPtr unique(std::string name, std::unique_ptr<BaseT> && defaultValue) const {
 		Impl::PropertyBindingBuilderFactoryPtr factory = Impl::getBindingBuilderFactory(typeid(BaseT), name, "");
-		auto f = factory->clone(name, defaultValue);
+		auto uniqueFactory = std::dynamic_pointer_cast<Impl::UniquePropertyBindingBuilderFactory<BaseT>>(factory);
+
+		if (!uniqueFactory) {
+			ThrowBalauException(
+				  Exception::EnvironmentConfigurationException
+				, ::toString("The type registered for property '", name, "' is not a unique type.")
+			);
+		}
+
+		auto f = Impl::PropertyBindingBuilderFactoryPtr(
+			new Impl::UniquePropertyBindingBuilderFactory<BaseT>(
+				std::move(name), uniqueFactory->clonerFunction, std::move(defaultValue)
+			)
+		);
+
 		allBindingBuilderFactories.emplace_back(f);
 		return f;
 	}
diff --git a/src/main/cpp/Balau/Application/EnvironmentProperties.hpp b/src/main/cpp/Balau/Application/EnvironmentProperties.hpp
index 44a62b8..7f35ee8 100644
--- a/src/main/cpp/Balau/Application/EnvironmentProperties.hpp
+++ b/src/main/cpp/Balau/Application/EnvironmentProperties.hpp
@@ -411,7 +411,7 @@ class EnvironmentProperties {
 	///
 	public: template <typename BaseT> std::unique_ptr<BaseT> getUnique(std::string_view name, std::unique_ptr<BaseT> && defaultValue) const {
 		return getUnique<BaseT>(
-			Impl::BindingKeyView(typeid(Impl::BindingKeyType<Impl::BindingMetaType::Unique, BaseT, std::default_delete<BaseT>>), name), defaultValue
+			Impl::BindingKeyView(typeid(Impl::BindingKeyType<Impl::BindingMetaType::Unique, BaseT, std::default_delete<BaseT>>), name), std::move(defaultValue)
 		);
 	}
 
-- 
2.43.0


From b8f9ca082d097536b0c06e6790962466cf02f263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:58 +0000
Subject: [PATCH 029/143] fix: the command line parser kept the final values of
 an earlier parse

---
 src/main/cpp/Balau/Application/CommandLine.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main/cpp/Balau/Application/CommandLine.hpp b/src/main/cpp/Balau/Application/CommandLine.hpp
index ce26fba..ff0f9ae 100644
--- a/src/main/cpp/Balau/Application/CommandLine.hpp
+++ b/src/main/cpp/Balau/Application/CommandLine.hpp
@@ -234,6 +234,7 @@ template <typename KeyT> class CommandLine {
 		using ::toString;
 
 		parsedValuesByKey.clear();
+		finalValues.clear();
 
 		if (args.empty() || (ignoreFirst && args.size() == 1)) {
 			if (commandLineHasFinalValue == HasFinalValue::Yes) {
-- 
2.43.0


From 082f61ae814038fd91b6f35c8442e50b5f442acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:58 +0000
Subject: [PATCH 030/143] fix: equals style command lines read missing values
 out of bounds and split final values

---
 .../cpp/Balau/Application/CommandLine.hpp     | 24 +++++++++++++------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/main/cpp/Balau/Application/CommandLine.hpp b/src/main/cpp/Balau/Application/CommandLine.hpp
index ff0f9ae..9010b7c 100644
--- a/src/main/cpp/Balau/Application/CommandLine.hpp
+++ b/src/main/cpp/Balau/Application/CommandLine.hpp
@@ -676,10 +676,22 @@ template <typename KeyT> class CommandLine {
 	                                     bool ignoreFirst) {
 		using ::toString;
 
+		// The final value is not split: it may contain equals characters.
+		const auto lastSwitch = toString(Util::Strings::trim(args.back().substr(0, args.back().find('='))));
+		const bool lastIsOption = keysBySwitch.find(lastSwitch) != keysBySwitch.end();
+
+		const bool hasFinalValue = commandLineHasFinalValue == HasFinalValue::Yes
+			|| (commandLineHasFinalValue == HasFinalValue::Maybe && !lastIsOption);
+
+		if (hasFinalValue && lastIsOption && Util::Strings::contains(args.back(), "=")) {
+			ThrowBalauException(Exception::MissingFinalValueException, "");
+		}
+
+		const size_t argCount = args.size() - (hasFinalValue ? 1 : 0);
 		std::vector<std::string> cleanedArgs;
 		size_t m = ignoreFirst ? 1 : 0;
 
-		while (m < args.size()) {
+		while (m < argCount) {
 			const std::string & arg = args[m];
 
 			if (Util::Strings::contains(arg, "=")) {
@@ -693,7 +705,7 @@ template <typename KeyT> class CommandLine {
 			m++;
 		}
 
-		for (size_t m = 0; m < (commandLineHasFinalValue == HasFinalValue::Yes ? cleanedArgs.size() - 1 : cleanedArgs.size()); m++) {
+		for (size_t m = 0; m < cleanedArgs.size(); m++) {
 			const std::string optionSwitch = toString(Util::Strings::trim(cleanedArgs[m]));
 			auto iter = keysBySwitch.find(optionSwitch);
 
@@ -705,9 +717,7 @@ template <typename KeyT> class CommandLine {
 			const auto & option = optionsByKey.at(key);
 
 			if (option.hasValue) {
-				if (commandLineHasFinalValue == HasFinalValue::Yes && cleanedArgs.size() - m < 2) {
-					ThrowBalauException(Exception::MissingFinalValueException, "");
-				} else if (cleanedArgs.size() - m < 1) {
+				if (m + 1 == cleanedArgs.size()) {
 					ThrowBalauException(Exception::MissingOptionValueException, optionSwitch);
 				}
 
@@ -718,8 +728,8 @@ template <typename KeyT> class CommandLine {
 			}
 		}
 
-		if (commandLineHasFinalValue == HasFinalValue::Yes) {
-			finalValues.push_back(toString(Util::Strings::trim(cleanedArgs.back())));
+		if (hasFinalValue) {
+			finalValues.push_back(toString(Util::Strings::trim(args.back())));
 		}
 	}
 
-- 
2.43.0


From a72bacb9f4b1ab62342b1c234837b7c708e981c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:58 +0000
Subject: [PATCH 031/143] fix: missing required final values were not reported
 in space style command lines

---
 src/main/cpp/Balau/Application/CommandLine.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main/cpp/Balau/Application/CommandLine.hpp b/src/main/cpp/Balau/Application/CommandLine.hpp
index 9010b7c..6279840 100644
--- a/src/main/cpp/Balau/Application/CommandLine.hpp
+++ b/src/main/cpp/Balau/Application/CommandLine.hpp
@@ -781,6 +781,10 @@ template <typename KeyT> class CommandLine {
 				parsedValuesByKey[key] = "";
 			}
 		}
+
+		if (commandLineHasFinalValue == HasFinalValue::Yes && finalValues.empty()) {
+			ThrowBalauException(Exception::MissingFinalValueException, "");
+		}
 	}
 
 	//
-- 
2.43.0


From 59e3bf81ad7475106b0b344b6ada49caf884f918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:58 +0000
Subject: [PATCH 032/143] fix: numeric command line values with trailing text
 or with a sign in unsigned options were accepted

---
 .../cpp/Balau/Application/CommandLine.hpp     | 66 ++++++++++++-------
 1 file changed, 42 insertions(+), 24 deletions(-)

diff --git a/src/main/cpp/Balau/Application/CommandLine.hpp b/src/main/cpp/Balau/Application/CommandLine.hpp
index 6279840..a0d9be7 100644
--- a/src/main/cpp/Balau/Application/CommandLine.hpp
+++ b/src/main/cpp/Balau/Application/CommandLine.hpp
@@ -311,7 +311,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: short getOptionAsShort(KeyT key) const {
-		auto parse = [] (const std::string & str) { return std::stoi(str); };
+		auto parse = [] (const std::string & str, size_t * end) { return std::stoi(str, end); };
 		return getOptionAs<short, int>(key, "a short integer", parse);
 	}
 
@@ -322,7 +322,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: unsigned short getOptionAsUnsignedShort(KeyT key) const {
-		auto parse = [] (const std::string & str) { return std::stoull(str); };
+		auto parse = [] (const std::string & str, size_t * end) { return std::stoull(str, end); };
 		return getOptionAs<unsigned short, unsigned long long>(key, "an unsigned short integer", parse);
 	}
 
@@ -333,7 +333,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: int getOptionAsInt(KeyT key) const {
-		auto parse = [] (const std::string & str) { return std::stoi(str); };
+		auto parse = [] (const std::string & str, size_t * end) { return std::stoi(str, end); };
 		return getOptionAs<int, int>(key, "an integer", parse);
 	}
 
@@ -344,7 +344,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: unsigned int getOptionAsUnsignedInt(KeyT key) const {
-		auto parse = [] (const std::string & str) { return std::stoull(str); };
+		auto parse = [] (const std::string & str, size_t * end) { return std::stoull(str, end); };
 		return getOptionAs<unsigned int, unsigned long long>(key, "an unsigned integer", parse);
 	}
 
@@ -355,7 +355,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: long long getOptionAsLong(KeyT key) const {
-		auto parse = [] (const std::string & str) { return std::stoll(str); };
+		auto parse = [] (const std::string & str, size_t * end) { return std::stoll(str, end); };
 		return getOptionAs<long long, long long>(key, "a long integer", parse);
 	}
 
@@ -366,7 +366,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: unsigned long long getOptionAsUnsignedLong(KeyT key) const {
-		auto parse = [] (const std::string & str) { return std::stoull(str); };
+		auto parse = [] (const std::string & str, size_t * end) { return std::stoull(str, end); };
 		return getOptionAs<unsigned long long, unsigned long long>(key, "an unsigned long long integer", parse);
 	}
 
@@ -379,7 +379,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: short getOptionAsShortOrDefault(KeyT key, short defaultValue) const {
-		auto parse = [] (const std::string & str) { return std::stoi(str); };
+		auto parse = [] (const std::string & str, size_t * end) { return std::stoi(str, end); };
 		return getOptionAs<short, int>(key, "a short integer", parse, true, defaultValue);
 	}
 
@@ -390,7 +390,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: unsigned short getOptionAsUnsignedShortOrDefault(KeyT key, unsigned short defaultValue) const {
-		auto parse = [] (const std::string & str) { return std::stoull(str); };
+		auto parse = [] (const std::string & str, size_t * end) { return std::stoull(str, end); };
 		return getOptionAs<unsigned short, unsigned long long>(key, "an unsigned short integer", parse, true, defaultValue);
 	}
 
@@ -401,7 +401,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: int getOptionAsIntOrDefault(KeyT key, int defaultValue) const {
-		auto parse = [] (const std::string & str) { return std::stoi(str); };
+		auto parse = [] (const std::string & str, size_t * end) { return std::stoi(str, end); };
 		return getOptionAs<int, int>(key, "an integer", parse, true, defaultValue);
 	}
 
@@ -412,7 +412,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: unsigned int getOptionAsUnsignedIntOrDefault(KeyT key, unsigned int defaultValue) const {
-		auto parse = [] (const std::string & str) { return std::stoull(str); };
+		auto parse = [] (const std::string & str, size_t * end) { return std::stoull(str, end); };
 		return getOptionAs<unsigned int, unsigned long long>(key, "an unsigned integer", parse, true, defaultValue);
 	}
 
@@ -423,7 +423,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: long long getOptionAsLongOrDefault(KeyT key, long long defaultValue) const {
-		auto parse = [] (const std::string & str) { return std::stoll(str); };
+		auto parse = [] (const std::string & str, size_t * end) { return std::stoll(str, end); };
 		return getOptionAs<long long, long long>(key, "a long integer", parse, true, defaultValue);
 	}
 
@@ -434,7 +434,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: unsigned long long getOptionAsUnsignedLongOrDefault(KeyT key, unsigned long long defaultValue) const {
-		auto parse = [] (const std::string & str) { return std::stoull(str); };
+		auto parse = [] (const std::string & str, size_t * end) { return std::stoull(str, end); };
 		return getOptionAs<unsigned long long, unsigned long long>(key, "an unsigned long long integer", parse, true, defaultValue);
 	}
 
@@ -447,7 +447,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: float getOptionAsFloat(KeyT key) const {
-		auto parse = [] (const std::string & str) { return std::stof(str); };
+		auto parse = [] (const std::string & str, size_t * end) { return std::stof(str, end); };
 		return getOptionAs<float, float>(key, "a single precision floating point value", parse);
 	}
 
@@ -458,7 +458,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: double getOptionAsDouble(KeyT key) const {
-		auto parse = [] (const std::string & str) { return std::stod(str); };
+		auto parse = [] (const std::string & str, size_t * end) { return std::stod(str, end); };
 		return getOptionAs<double, double>(key, "a double precision floating point value", parse);
 	}
 
@@ -471,7 +471,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: float getOptionAsFloatOrDefault(KeyT key, float defaultValue) const {
-		auto parse = [] (const std::string & str) { return std::stof(str); };
+		auto parse = [] (const std::string & str, size_t * end) { return std::stof(str, end); };
 		return getOptionAs<float, float>(key, "a single precision floating point value", parse, true, defaultValue);
 	}
 
@@ -482,7 +482,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: double getOptionAsDoubleOrDefault(KeyT key, double defaultValue) const {
-		auto parse = [] (const std::string & str) { return std::stod(str); };
+		auto parse = [] (const std::string & str, size_t * end) { return std::stod(str, end); };
 		return getOptionAs<double, double>(key, "a double precision floating point value", parse, true, defaultValue);
 	}
 
@@ -515,7 +515,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: float getFinalValueAsFloat(size_t index = 0) const {
-		auto parse = [] (const std::string & str) { return std::stof(str); };
+		auto parse = [] (const std::string & str, size_t * end) { return std::stof(str, end); };
 		return getFinalValueAs<float>("a single precision floating point value", parse, index);
 	}
 
@@ -526,7 +526,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: double getFinalValueAsDouble(size_t index = 0) const {
-		auto parse = [] (const std::string & str) { return std::stod(str); };
+		auto parse = [] (const std::string & str, size_t * end) { return std::stod(str, end); };
 		return getFinalValueAs<double>("a double precision floating point value", parse, index);
 	}
 
@@ -550,7 +550,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: float getFinalValueAsFloatOrDefault(float defaultValue, size_t index = 0) const {
-		auto parse = [] (const std::string & str) { return std::stof(str); };
+		auto parse = [] (const std::string & str, size_t * end) { return std::stof(str, end); };
 		return getFinalValueAs<float>("a single precision floating point value", parse, index, true, defaultValue);
 	}
 
@@ -561,7 +561,7 @@ template <typename KeyT> class CommandLine {
 	/// @throw OptionValueException if the value supplied on the command line was invalid
 	///
 	public: double getFinalValueAsDoubleOrDefault(double defaultValue, size_t index = 0) const {
-		auto parse = [] (const std::string & str) { return std::stod(str); };
+		auto parse = [] (const std::string & str, size_t * end) { return std::stod(str, end); };
 		return getFinalValueAs<double>("a double precision floating point value", parse, index, true, defaultValue);
 	}
 
@@ -787,6 +787,24 @@ template <typename KeyT> class CommandLine {
 		}
 	}
 
+	//
+	// Converts the whole of the text, which for unsigned types must not be negative.
+	//
+	private: template <typename C> static C parseAll(const std::string & str, C parse(const std::string &, size_t *)) {
+		size_t end = 0;
+		const C value = parse(str, &end);
+
+		if (end != str.length()) {
+			throw std::invalid_argument(str);
+		}
+
+		if (std::is_unsigned<C>::value && Util::Strings::contains(str, "-")) {
+			throw std::out_of_range(str);
+		}
+
+		return value;
+	}
+
 	//
 	// Option numeric conversion function.
 	//  - T is the required type.
@@ -794,7 +812,7 @@ template <typename KeyT> class CommandLine {
 	//
 	private: template<typename T, typename C> T getOptionAs(KeyT key,
 	                                                        const std::string & typeAsString,
-	                                                        C parse(const std::string &),
+	                                                        C parse(const std::string &, size_t *),
 	                                                        bool orDefault = false,
 	                                                        T defaultValue = T()) const {
 		if (parsedValuesByKey.find(key) == parsedValuesByKey.end()) {
@@ -813,7 +831,7 @@ template <typename KeyT> class CommandLine {
 		const std::string str = parsedValuesByKey.at(key);
 
 		try {
-			const C value = parse(str);
+			const C value = parseAll(str, parse);
 			return boost::numeric_cast<T>(value);
 		} catch (const std::invalid_argument &) {
 			using ::toString;
@@ -848,7 +866,7 @@ template <typename KeyT> class CommandLine {
 	//  - T is the required type.
 	//
 	private: template<typename T> T getFinalValueAs(const std::string & typeAsString,
-	                                                T parse(const std::string &),
+	                                                T parse(const std::string &, size_t *),
 	                                                size_t index,
 	                                                bool orDefault = false,
 	                                                T defaultValue = T()) const {
@@ -872,7 +890,7 @@ template <typename KeyT> class CommandLine {
 		}
 
 		try {
-			return parse(finalValues[index]);
+			return parseAll(finalValues[index], parse);
 		} catch (const std::invalid_argument &) {
 			ThrowBalauException(
 				Exception::OptionValueException, std::string("Final value is not " + typeAsString + ": " + finalValues[index])
-- 
2.43.0


From 510a098dd7db7926d924e47f2d3ca83c0c454c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:58 +0000
Subject: [PATCH 033/143] fix: the help text of an option without documentation
 had no line break

---
 src/main/cpp/Balau/Application/CommandLine.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Application/CommandLine.hpp b/src/main/cpp/Balau/Application/CommandLine.hpp
index a0d9be7..c6dde55 100644
--- a/src/main/cpp/Balau/Application/CommandLine.hpp
+++ b/src/main/cpp/Balau/Application/CommandLine.hpp
@@ -636,7 +636,7 @@ template <typename KeyT> class CommandLine {
 			size_t charactersWritten = 0;
 			bool first = true;
 
-			while (charactersWritten < docText.length()) {
+			do {
 				const size_t charactersRemaining = docText.length() - charactersWritten;
 
 				if (charactersRemaining <= totalWidth) {
@@ -648,7 +648,7 @@ template <typename KeyT> class CommandLine {
 				}
 
 				first = false;
-			}
+			} while (charactersWritten < docText.length());
 		}
 
 		return builder.str();
-- 
2.43.0


From 1d512bf20f13ceef0e08ec6f3c0352f2d6a9c117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:58 +0000
Subject: [PATCH 034/143] fix: the environment configuration constructor with
 several specification uris did not compile

---
 .../cpp/Balau/Application/EnvironmentConfiguration.hpp     | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp b/src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp
index e60ece6..4fdaf47 100644
--- a/src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp
+++ b/src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp
@@ -234,7 +234,12 @@ class EnvironmentConfiguration : public InjectorConfiguration {
 	                         const std::shared_ptr<Resource::Uri> & firstTypeSpecifications,
 	                         const UriT & ... moreTypeSpecifications)
 		: propertyStringsHierarchy(Impl::EnvironmentConfigurationBuilderUtils::createPropertyStrings({ input }))
-		, typeSpecificationsUris(Util::Vectors::pushBack(firstTypeSpecifications, moreTypeSpecifications ...)) {}
+		, typeSpecificationsUris(
+			Util::Vectors::pushBack(
+				  std::shared_ptr<Resource::Uri>(firstTypeSpecifications)
+				, std::shared_ptr<Resource::Uri>(moreTypeSpecifications) ...
+			)
+		) {}
 
 	///
 	/// Create an environment configuration by specifying a string for the source properties text and the property types via a properties file.
-- 
2.43.0


From 0b3f59ed2f6239893c53f4ef146065ed86c6d9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:54 +0000
Subject: [PATCH 035/143] fix: uris without a scheme were accepted, with their
 last character missing from the scheme

---
 src/main/cpp/Balau/Resource/UriComponents.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/main/cpp/Balau/Resource/UriComponents.hpp b/src/main/cpp/Balau/Resource/UriComponents.hpp
index cf4a049..582e776 100644
--- a/src/main/cpp/Balau/Resource/UriComponents.hpp
+++ b/src/main/cpp/Balau/Resource/UriComponents.hpp
@@ -176,10 +176,13 @@ struct UriComponents {
 			);
 		}
 
+		bool schemeEndFound = false;
+
 		while (offset < length) {
 			c = Character::getNextUtf8(uri, offset);
 
 			if (c == U':') { // End of scheme.
+				schemeEndFound = true;
 				break;
 			} else if (!Character::isAlphaOrDecimal(c) && c != U'+' && c != U'.' && c != U'-') {
 				ThrowBalauException(
@@ -189,6 +192,10 @@ struct UriComponents {
 			}
 		}
 
+		if (!schemeEndFound) {
+			ThrowBalauException(Exception::InvalidUriException, "Invalid scheme (no colon found).");
+		}
+
 		schemeEndOffset = short(offset - 1);
 		int userinfoEnd = -1;
 
-- 
2.43.0


From ce71bc0a1a9fefad201a7a363b1532252ddf23f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:54 +0000
Subject: [PATCH 036/143] fix: the delimiter of an empty query or fragment was
 part of the uri path

---
 src/main/cpp/Balau/Resource/UriComponents.hpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/main/cpp/Balau/Resource/UriComponents.hpp b/src/main/cpp/Balau/Resource/UriComponents.hpp
index 582e776..5353362 100644
--- a/src/main/cpp/Balau/Resource/UriComponents.hpp
+++ b/src/main/cpp/Balau/Resource/UriComponents.hpp
@@ -305,30 +305,38 @@ struct UriComponents {
 			pathOffset = short(offset);
 		}
 
+		bool queryFound = false;
+		bool fragmentFound = false;
+
 		// Mandatory path section.
 		while (offset < length) {
 			c = Character::getNextUtf8(uri, offset);
 
-			if (c == U'?' || c == U'#') { // End of path.
+			if (c == U'?') { // End of path, start of query.
+				queryFound = true;
+				break;
+			} else if (c == U'#') { // End of path, start of fragment.
+				fragmentFound = true;
 				break;
 			}
 		}
 
-		// Optional query section.
-		if (offset < length && c == U'?') {
+		// Optional query section (may be empty).
+		if (queryFound) {
 			queryOffset = short(offset);
 
 			while (offset < length) {
 				c = Character::getNextUtf8(uri, offset);
 
 				if (c == U'#') { // End of query.
+					fragmentFound = true;
 					break;
 				}
 			}
 		}
 
-		// Optional fragment section.
-		if (offset < length) {
+		// Optional fragment section (may be empty).
+		if (fragmentFound) {
 			fragmentOffset = short(offset);
 		}
 
-- 
2.43.0


From 10880d1614e80e1d611fcbef8eaa20b779a948f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:54 +0000
Subject: [PATCH 037/143] fix: a uri with user info and no host made views
 outside of the uri

---
 src/main/cpp/Balau/Resource/UriComponents.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Resource/UriComponents.hpp b/src/main/cpp/Balau/Resource/UriComponents.hpp
index 5353362..785013a 100644
--- a/src/main/cpp/Balau/Resource/UriComponents.hpp
+++ b/src/main/cpp/Balau/Resource/UriComponents.hpp
@@ -270,8 +270,10 @@ struct UriComponents {
 				}
 
 				if (hostOffset == -1) {
-					if (userinfoOffset != -1 && offset > userinfoEnd + 1) {
-						hostOffset = short(userinfoEnd + 1);
+					if (userinfoOffset != -1) {
+						if (offset > userinfoEnd + 1) {
+							hostOffset = short(userinfoEnd + 1);
+						}
 					} else if (offset > schemeEndOffset + 2) {
 						hostOffset = short(schemeEndOffset + 3);
 					}
-- 
2.43.0


From d33ad27083f0e8e0a3a72fb7605f4c0411e762bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:54 +0000
Subject: [PATCH 038/143] fix: port numbers with other characters were
 accepted, and others threw exceptions other than InvalidUriException

---
 src/main/cpp/Balau/Resource/UriComponents.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/main/cpp/Balau/Resource/UriComponents.hpp b/src/main/cpp/Balau/Resource/UriComponents.hpp
index 785013a..7ae53d9 100644
--- a/src/main/cpp/Balau/Resource/UriComponents.hpp
+++ b/src/main/cpp/Balau/Resource/UriComponents.hpp
@@ -344,10 +344,19 @@ struct UriComponents {
 
 		// Pre-convert the port into an unsigned short if it is set.
 		if (portOffset != -1) {
-			const unsigned long p = std::stoul(uri.substr((size_t) portOffset));
+			const std::string portText = uri.substr((size_t) portOffset, (size_t) (pathOffset - portOffset));
+			unsigned long p = 0;
 
-			if (p > UINT16_MAX) {
-				ThrowBalauException(Exception::InvalidUriException, std::string("Invalid port number: ") + ::toString(p));
+			for (const char portCharacter : portText) {
+				if (portCharacter < '0' || portCharacter > '9') {
+					ThrowBalauException(Exception::InvalidUriException, "Invalid port number: " + portText);
+				}
+
+				p = p * 10 + (unsigned long) (portCharacter - '0');
+
+				if (p > UINT16_MAX) {
+					ThrowBalauException(Exception::InvalidUriException, "Invalid port number: " + portText);
+				}
 			}
 
 			parsedPort = (unsigned short) p;
-- 
2.43.0


From 942c45baef69556c1dc5e4bd4a0d59c9928ea564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:54 +0000
Subject: [PATCH 039/143] fix: path normalisation kept dot components and some
 dot dot components

---
 src/main/cpp/Balau/Resource/UriComponents.hpp | 35 ++++---------------
 1 file changed, 7 insertions(+), 28 deletions(-)

diff --git a/src/main/cpp/Balau/Resource/UriComponents.hpp b/src/main/cpp/Balau/Resource/UriComponents.hpp
index 7ae53d9..5a9835a 100644
--- a/src/main/cpp/Balau/Resource/UriComponents.hpp
+++ b/src/main/cpp/Balau/Resource/UriComponents.hpp
@@ -68,38 +68,17 @@ struct UriComponents {
 		const auto pathComponents = Util::Strings::split(path, "/");
 		const bool absolute = Util::Strings::startsWith(path, "/");
 		std::vector<std::string_view> newPathComponents;
-		std::vector<size_t> pendingComponents;
-		size_t index = 0;
-		bool lastWasDotDot = false;
 
 		for (const auto & pathComponent : pathComponents) {
-			if (pathComponent == "..") {
-				if (!pendingComponents.empty()) {
-					pendingComponents.pop_back();
-					lastWasDotDot = true;
-				} else {
-					newPathComponents.push_back(pathComponent);
-				}
-			} else {
-				if (lastWasDotDot) {
-					// Commit pending components.
-					for (size_t componentIndex : pendingComponents) {
-						newPathComponents.push_back(pathComponents[componentIndex]);
-					}
-
-					pendingComponents.clear();
-					lastWasDotDot = false;
-				}
-
-				pendingComponents.push_back(index);
+			if (pathComponent == ".") {
+				continue;
 			}
 
-			++index;
-		}
-
-		// Commit remaining pending components.
-		for (size_t componentIndex : pendingComponents) {
-			newPathComponents.push_back(pathComponents[componentIndex]);
+			if (pathComponent == ".." && !newPathComponents.empty() && newPathComponents.back() != "..") {
+				newPathComponents.pop_back();
+			} else {
+				newPathComponents.push_back(pathComponent);
+			}
 		}
 
 		return (absolute ? "/" : "") + Util::Strings::joinContainer("/", newPathComponents);
-- 
2.43.0


From 883a6087aa0ae926d6b83b629094187015d16d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:03 +0000
Subject: [PATCH 040/143] fix: uris with malformed UTF-8 text were read out of
 bounds

---
 src/main/cpp/Balau/Resource/UriComponents.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/main/cpp/Balau/Resource/UriComponents.hpp b/src/main/cpp/Balau/Resource/UriComponents.hpp
index 5a9835a..299ae7e 100644
--- a/src/main/cpp/Balau/Resource/UriComponents.hpp
+++ b/src/main/cpp/Balau/Resource/UriComponents.hpp
@@ -146,7 +146,7 @@ struct UriComponents {
 		// of letters, digits, plus (+), period (.), or hyphen (-).
 		//
 
-		c = Character::getNextUtf8(uri, offset);
+		c = Character::getNextUtf8Safe(uri, offset);
 
 		if (!Character::isAlpha(c)) {
 			ThrowBalauException(
@@ -158,7 +158,7 @@ struct UriComponents {
 		bool schemeEndFound = false;
 
 		while (offset < length) {
-			c = Character::getNextUtf8(uri, offset);
+			c = Character::getNextUtf8Safe(uri, offset);
 
 			if (c == U':') { // End of scheme.
 				schemeEndFound = true;
@@ -194,13 +194,13 @@ struct UriComponents {
 				pathOffset = short(offset);
 			} else {
 				while (offset < length) {
-					c = Character::getNextUtf8(uri, offset);
+					c = Character::getNextUtf8Safe(uri, offset);
 
 					if (hostOffset == -1 && c == U'[') { // [] enclosed IPv6 address.
 						hostOffset = short(offset - 1);
 
 						while (offset < length && c != U']') {
-							c = Character::getNextUtf8(uri, offset);
+							c = Character::getNextUtf8Safe(uri, offset);
 						}
 
 						if (c != U']') { // No closing ']'?
@@ -230,7 +230,7 @@ struct UriComponents {
 						portOffset = short(offset);
 
 						while (offset < length) {
-							c = Character::getNextUtf8(uri, offset);
+							c = Character::getNextUtf8Safe(uri, offset);
 
 							if (c == U'@') { // Deprecated password.
 								ThrowBalauException(
@@ -291,7 +291,7 @@ struct UriComponents {
 
 		// Mandatory path section.
 		while (offset < length) {
-			c = Character::getNextUtf8(uri, offset);
+			c = Character::getNextUtf8Safe(uri, offset);
 
 			if (c == U'?') { // End of path, start of query.
 				queryFound = true;
@@ -307,7 +307,7 @@ struct UriComponents {
 			queryOffset = short(offset);
 
 			while (offset < length) {
-				c = Character::getNextUtf8(uri, offset);
+				c = Character::getNextUtf8Safe(uri, offset);
 
 				if (c == U'#') { // End of query.
 					fragmentFound = true;
-- 
2.43.0


From 5f2d47f6bcd3deb6607c7afee30ddf8c21a4729e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:33 +0000
Subject: [PATCH 041/143] fix: appending to a URL dropped its user information
 and port and doubled slashes

---
 src/main/cpp/Balau/Resource/Url.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/main/cpp/Balau/Resource/Url.hpp b/src/main/cpp/Balau/Resource/Url.hpp
index d9b0da6..be27a01 100644
--- a/src/main/cpp/Balau/Resource/Url.hpp
+++ b/src/main/cpp/Balau/Resource/Url.hpp
@@ -73,9 +73,11 @@ class Url : public Uri {
 		const UriComponents components(uri);
 		// TODO normalise path.
 
-		std::string url = ::toString(
-			components.scheme(), "://", components.host(), components.path(), "/", pathComponent
-		);
+		// The scheme and the authority section, including user information and port.
+		const std::string prefix = uri.substr(0, uri.length() - components.pathQueryFragment().length());
+		const std::string_view separator = Util::Strings::endsWith(components.path(), "/") ? "" : "/";
+
+		std::string url = ::toString(prefix, components.path(), separator, pathComponent);
 
 		if (components.hasQuery()) {
 			url += "?";
-- 
2.43.0


From d041f2e0ef25322cd2508543ac2446da2b8f019a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:33 +0000
Subject: [PATCH 042/143] fix: resolving paths of URLs kept the last path
 component and dropped user information and port

---
 src/main/cpp/Balau/Resource/UriResolve.hpp | 48 +++++++++++-----------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/src/main/cpp/Balau/Resource/UriResolve.hpp b/src/main/cpp/Balau/Resource/UriResolve.hpp
index 1b62191..9f21138 100644
--- a/src/main/cpp/Balau/Resource/UriResolve.hpp
+++ b/src/main/cpp/Balau/Resource/UriResolve.hpp
@@ -60,6 +60,8 @@ class UriResolve {
 	public: static std::unique_ptr<Uri> resolve(const ZipEntry & zipEntry, std::string_view path);
 	public: static std::unique_ptr<Uri> resolve(const ZipFile & zipFile, std::string_view path);
 
+	private: static std::string resolveUrl(const Url & url, const std::string & path);
+
 	private: struct UriResolveVisitor : public UriVisitor {
 		std::string_view path;
 		std::unique_ptr<Uri> resultUri;
@@ -170,6 +172,26 @@ inline std::unique_ptr<Uri> UriResolve::resolve(const File & file, std::string_v
 	}
 }
 
+inline std::string UriResolve::resolveUrl(const Url & url, const std::string & path) {
+	const UriComponents components(url);
+	const std::string & uri = components.getUri();
+
+	// The scheme and the authority section, including user information and port.
+	const std::string prefix = uri.substr(0, uri.length() - components.pathQueryFragment().length());
+
+	if (Util::Strings::startsWith(path, "/")) {
+		// Absolute path.
+		return prefix + path;
+	} else {
+		// Relative path.
+		// TODO normalise path.
+		const std::string_view urlPath = components.path();
+		const size_t lastSlash = urlPath.rfind('/');
+		const std::string_view basePath = lastSlash == std::string_view::npos ? "/" : urlPath.substr(0, lastSlash + 1);
+		return ::toString(prefix, basePath, path);
+	}
+}
+
 inline std::unique_ptr<Uri> UriResolve::resolve(const Http & http, std::string_view path) {
 	static const std::regex scheme { "[a-zA-Z][a-zA-Z0-9+-\\.]*:" };
 
@@ -182,18 +204,7 @@ inline std::unique_ptr<Uri> UriResolve::resolve(const Http & http, std::string_v
 		return uri;
 	}
 
-	const UriComponents components(http);
-
-	if (Util::Strings::startsWith(str, "/")) {
-		// Absolute path.
-		std::string url = ::toString(components.scheme(), "://", components.host(), str);
-		return std::unique_ptr<Uri>(new Http(url));
-	} else {
-		// Relative path.
-		// TODO normalise path.
-		std::string url = ::toString(components.scheme(), "://", components.host(), "/", components.path(), "/", str);
-		return std::unique_ptr<Uri>(new Http(url));
-	}
+	return std::unique_ptr<Uri>(new Http(resolveUrl(http, str)));
 }
 
 inline std::unique_ptr<Uri> UriResolve::resolve(const Https & https, std::string_view path) {
@@ -208,18 +219,7 @@ inline std::unique_ptr<Uri> UriResolve::resolve(const Https & https, std::string
 		return uri;
 	}
 
-	const UriComponents components(https);
-
-	if (Util::Strings::startsWith(str, "/")) {
-		// Absolute path.
-		std::string url = ::toString(components.scheme(), "://", components.host(), str);
-		return std::unique_ptr<Uri>(new Https(url));
-	} else {
-		// Relative path.
-		// TODO normalise path.
-		std::string url = ::toString(components.scheme(), "://", components.host(), "/", components.path(), "/", str);
-		return std::unique_ptr<Uri>(new Https(url));
-	}
+	return std::unique_ptr<Uri>(new Https(resolveUrl(https, str)));
 }
 
 inline std::unique_ptr<Uri> UriResolve::resolve(const StringUri & stringUri, std::string_view path) {
-- 
2.43.0


From 67cf404673d3058cd50dee79719af6f5247a29ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:16 +0000
Subject: [PATCH 043/143] fix: uris with user info, a host of one character and
 no path were refused

---
 src/main/cpp/Balau/Resource/UriComponents.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Resource/UriComponents.hpp b/src/main/cpp/Balau/Resource/UriComponents.hpp
index 299ae7e..c235ee3 100644
--- a/src/main/cpp/Balau/Resource/UriComponents.hpp
+++ b/src/main/cpp/Balau/Resource/UriComponents.hpp
@@ -272,7 +272,7 @@ struct UriComponents {
 						Exception::InvalidUriException, "Authority section does not contain host information."
 					);
 				}
-			} else if (offset == hostOffset + 1) {
+			} else if (hostOffset == (pathOffset != -1 ? pathOffset : offset)) {
 				ThrowBalauException(
 					Exception::InvalidUriException, "Authority section does not contain host information."
 				);
-- 
2.43.0


From b1822ce2a31bc438649c250348051f6cc561468d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:31 +0000
Subject: [PATCH 044/143] fix: a uri with a bracketed host before the user info
 made views outside of the uri

---
 src/main/cpp/Balau/Resource/UriComponents.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/main/cpp/Balau/Resource/UriComponents.hpp b/src/main/cpp/Balau/Resource/UriComponents.hpp
index c235ee3..8a75a24 100644
--- a/src/main/cpp/Balau/Resource/UriComponents.hpp
+++ b/src/main/cpp/Balau/Resource/UriComponents.hpp
@@ -219,6 +219,13 @@ struct UriComponents {
 						pathOffset = short(offset);
 						break;
 					} else if (userinfoEnd == -1 && c == U'@') { // End of userinfo.
+						if (hostOffset != -1) {
+							ThrowBalauException(
+								Exception::InvalidUriException
+							, "[] based host was found in the user information."
+							);
+						}
+
 						userinfoEnd = offset - 1;
 						userinfoOffset = short(schemeEndOffset + 3);
 					} else if (c == U':' && (userinfoEnd != -1 || offset > schemeEndOffset + 2)) { // Start of port.
-- 
2.43.0


From f04e90c9281b9a319a7a2c2051a7f41a17ae7829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:55 +0000
Subject: [PATCH 045/143] fix: queries about files that do not exist threw, and
 answers were cached

---
 src/main/cpp/Balau/Resource/File.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/main/cpp/Balau/Resource/File.hpp b/src/main/cpp/Balau/Resource/File.hpp
index d18b354..58c15d8 100644
--- a/src/main/cpp/Balau/Resource/File.hpp
+++ b/src/main/cpp/Balau/Resource/File.hpp
@@ -385,7 +385,7 @@ class File : public Uri {
 	/// @return true if an item exits in the file system for the file URI
 	///
 	public: bool exists() const {
-		return boost::filesystem::exists(entry);
+		return boost::filesystem::exists(entry.path());
 	}
 
 	///
@@ -395,7 +395,7 @@ class File : public Uri {
 	///
 	public: size_t size() const {
 		boost::system::error_code errorCode;
-		boost::uintmax_t sz = boost::filesystem::file_size(entry, errorCode);
+		boost::uintmax_t sz = boost::filesystem::file_size(entry.path(), errorCode);
 
 		if (errorCode) {
 			ThrowBalauException(
@@ -413,7 +413,7 @@ class File : public Uri {
 	/// @return the modified time of the file
 	///
 	public: std::chrono::system_clock::time_point getModifiedTimestamp() const {
-		return std::chrono::system_clock::from_time_t(boost::filesystem::last_write_time(entry));
+		return std::chrono::system_clock::from_time_t(boost::filesystem::last_write_time(entry.path()));
 	}
 
 	///
@@ -422,7 +422,7 @@ class File : public Uri {
 	/// @return true if the file URI points to a directory
 	///
 	public: bool isRegularDirectory() const override {
-		return boost::filesystem::is_directory(entry);
+		return boost::filesystem::is_directory(entry.path());
 	}
 
 	///
@@ -431,7 +431,7 @@ class File : public Uri {
 	/// @return true if the file URI points to a regular file
 	///
 	public: bool isRegularFile() const override {
-		return boost::filesystem::is_regular_file(entry);
+		return boost::filesystem::is_regular_file(entry.path());
 	}
 
 	///
@@ -473,7 +473,7 @@ class File : public Uri {
 	/// @throw filesystem_error when there was an error attempting to create one or more of the directories
 	///
 	public: bool createDirectories() const {
-		return boost::filesystem::create_directories(entry);
+		return boost::filesystem::create_directories(entry.path());
 	}
 
 	///
@@ -482,7 +482,7 @@ class File : public Uri {
 	/// @return true if the file was removed
 	///
 	public: bool removeFile() const {
-		return boost::filesystem::remove(entry);
+		return boost::filesystem::remove(entry.path());
 	}
 
 	///
@@ -491,7 +491,7 @@ class File : public Uri {
 	/// @return a copy of the file converted to an absolute path
 	///
 	public: File toAbsolutePath() const {
-		return File(boost::filesystem::absolute(entry));
+		return File(boost::filesystem::absolute(entry.path()));
 	}
 
 	///
@@ -500,7 +500,7 @@ class File : public Uri {
 	/// @return the relative path of the current object, compared to the supplied file
 	///
 	public: File relative(const File & base) const {
-		return File(boost::filesystem::relative(entry, base.entry));
+		return File(boost::filesystem::relative(entry.path(), base.entry.path()));
 	}
 
 	public: std::string toUriString() const override {
-- 
2.43.0


From 8019b93c5bf561653cd7691dd3b5b5764d5daf10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:42 +0000
Subject: [PATCH 046/143] fix: moved resources crashed on destruction

---
 src/main/cpp/Balau/Resource/File.hpp | 20 ++++++++++++++++----
 src/main/cpp/Balau/Resource/Http.hpp | 20 ++++++++++++++++----
 2 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/src/main/cpp/Balau/Resource/File.hpp b/src/main/cpp/Balau/Resource/File.hpp
index 58c15d8..ab90d7b 100644
--- a/src/main/cpp/Balau/Resource/File.hpp
+++ b/src/main/cpp/Balau/Resource/File.hpp
@@ -741,7 +741,10 @@ class FileByteReadResource : public ByteReadResource {
 	}
 
 	public: void close() override {
-		stream->close();
+		// The stream has gone if the resource has been moved.
+		if (stream) {
+			stream->close();
+		}
 	}
 
 	////////////////////////// Private implementation /////////////////////////
@@ -792,7 +795,10 @@ class FileByteWriteResource : public ByteWriteResource {
 	}
 
 	public: void close() override {
-		stream->close();
+		// The stream has gone if the resource has been moved.
+		if (stream) {
+			stream->close();
+		}
 	}
 
 	////////////////////////// Private implementation /////////////////////////
@@ -849,7 +855,10 @@ class FileUtf8To32ReadResource : public Utf8To32ReadResource {
 	}
 
 	public: void close() override {
-		stream->close();
+		// The stream has gone if the resource has been moved.
+		if (stream) {
+			stream->close();
+		}
 	}
 
 	////////////////////////// Private implementation /////////////////////////
@@ -906,7 +915,10 @@ class FileUtf32To8WriteResource : public Utf32To8WriteResource {
 	}
 
 	public: void close() override {
-		stream->close();
+		// The stream has gone if the resource has been moved.
+		if (stream) {
+			stream->close();
+		}
 	}
 
 	////////////////////////// Private implementation /////////////////////////
diff --git a/src/main/cpp/Balau/Resource/Http.hpp b/src/main/cpp/Balau/Resource/Http.hpp
index 0e1197e..05a09ec 100644
--- a/src/main/cpp/Balau/Resource/Http.hpp
+++ b/src/main/cpp/Balau/Resource/Http.hpp
@@ -447,7 +447,10 @@ class HttpByteReadResource : public ByteReadResource {
 	}
 
 	public: void close() override {
-		stream->close();
+		// The stream has gone if the resource has been moved.
+		if (stream) {
+			stream->close();
+		}
 	}
 
 	////////////////////////// Private implementation /////////////////////////
@@ -486,7 +489,10 @@ class HttpsByteReadResource : public ByteReadResource {
 	}
 
 	public: void close() override {
-		stream->close();
+		// The stream has gone if the resource has been moved.
+		if (stream) {
+			stream->close();
+		}
 	}
 
 	////////////////////////// Private implementation /////////////////////////
@@ -532,7 +538,10 @@ class HttpsUtf8To32ReadResource : public Utf8To32ReadResource {
 	}
 
 	public: void close() override {
-		utf32Stream->close();
+		// The stream has gone if the resource has been moved.
+		if (utf32Stream) {
+			utf32Stream->close();
+		}
 	}
 
 	////////////////////////// Private implementation /////////////////////////
@@ -580,7 +589,10 @@ class HttpUtf8To32ReadResource : public Utf8To32ReadResource {
 	}
 
 	public: void close() override {
-		utf32Stream->close();
+		// The stream has gone if the resource has been moved.
+		if (utf32Stream) {
+			utf32Stream->close();
+		}
 	}
 
 	////////////////////////// Private implementation /////////////////////////
-- 
2.43.0


From 0fa4fdb9b6127ddc8d461c5805410e33b2dbeaba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:42 +0000
Subject: [PATCH 047/143] fix: file uris with a double slash after the scheme
 were read as paths which start with the double slash

---
 src/main/cpp/Balau/Resource/UriFromString.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/main/cpp/Balau/Resource/UriFromString.hpp b/src/main/cpp/Balau/Resource/UriFromString.hpp
index 3048d2d..d6933ba 100644
--- a/src/main/cpp/Balau/Resource/UriFromString.hpp
+++ b/src/main/cpp/Balau/Resource/UriFromString.hpp
@@ -63,6 +63,11 @@ inline void fromString(std::unique_ptr<Uri> & uri, std::string_view value) {
 
 	if (scheme == "file") {
 		auto s = value.substr(value.find(':') + 1);
+
+		if (Util::Strings::startsWith(s, "//")) {
+			s = s.substr(2);
+		}
+
 		path = std::string(s.data(), s.length());
 	} else { // Implicit file schema or zip archive.
 		path = std::string(value);
-- 
2.43.0


From 28396c2f740ae8c029e965b23d67de11d5b90119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:17 +0000
Subject: [PATCH 048/143] fix: relative paths of zip entries were resolved by
 appending them to the name of the entry

---
 src/main/cpp/Balau/Resource/UriResolve.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Resource/UriResolve.hpp b/src/main/cpp/Balau/Resource/UriResolve.hpp
index 9f21138..16019df 100644
--- a/src/main/cpp/Balau/Resource/UriResolve.hpp
+++ b/src/main/cpp/Balau/Resource/UriResolve.hpp
@@ -261,8 +261,14 @@ inline std::unique_ptr<Uri> UriResolve::resolve(const ZipEntry & zipEntry, std::
 	} else {
 		// Relative path.
 		const std::string entryName = zipEntry.archive.getEntryName(zipEntry.entryIndex);
-		const std::string normalisedName = UriComponents::normalizePath(entryName);
-		const auto newName = normalisedName + str;
+		const size_t lastSlash = entryName.rfind('/');
+		const std::string baseName = lastSlash == std::string::npos ? "" : entryName.substr(0, lastSlash + 1);
+		std::string newName = UriComponents::normalizePath(baseName + str);
+
+		if (Util::Strings::endsWith(str, "/")) {
+			newName += "/"; // A directory entry.
+		}
+
 		return std::unique_ptr<Uri>(new ZipEntry(zipEntry.archive, zipEntry.archive.getEntryIndex(newName)));
 	}
 }
-- 
2.43.0


From 56313419caecf1133c86f2988067992f3fc8ec8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:17 +0000
Subject: [PATCH 049/143] fix: relative paths of zip files were not resolved
 against the directory of the zip file

---
 src/main/cpp/Balau/Resource/UriResolve.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Resource/UriResolve.hpp b/src/main/cpp/Balau/Resource/UriResolve.hpp
index 16019df..e4629f8 100644
--- a/src/main/cpp/Balau/Resource/UriResolve.hpp
+++ b/src/main/cpp/Balau/Resource/UriResolve.hpp
@@ -288,7 +288,7 @@ inline std::unique_ptr<Uri> UriResolve::resolve(const ZipFile & zipFile, std::st
 	boost::filesystem::path p(str);
 
 	if (p.is_relative()) {
-		auto p2 = boost::filesystem::relative(p, zipFile.entry.path());
+		auto p2 = (zipFile.entry.path().parent_path() / p).lexically_normal();
 		return std::unique_ptr<Uri>(new ZipFile(File(p2)));
 	} else { // absolute
 		return std::unique_ptr<Uri>(new ZipFile(File(p)));
-- 
2.43.0


From c9bb770ead884dc4815a9a3ab34a75e227e1ed95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:17 +0000
Subject: [PATCH 050/143] fix: default constructed zippers and unzippers had an
 uninitialised archive pointer

---
 src/main/cpp/Balau/Util/Zip.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Util/Zip.hpp b/src/main/cpp/Balau/Util/Zip.hpp
index 4d0e60e..0686c74 100644
--- a/src/main/cpp/Balau/Util/Zip.hpp
+++ b/src/main/cpp/Balau/Util/Zip.hpp
@@ -752,7 +752,7 @@ class Unzipper {
 		ThrowBalauException(Exception::ZipException, errorMessage + ": " + std::string(errorString) + ".", path);
 	}
 
-	protected: void * archive;
+	protected: void * archive = nullptr;
 	protected: Resource::File path;
 };
 
-- 
2.43.0


From 14f4a47ae18beb9b6c8523cb61a0c8715336ad97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:18 +0000
Subject: [PATCH 051/143] fix: reading a zip entry of more than 2048 bytes as a
 string overflowed the buffer

---
 src/main/cpp/Balau/Util/Zip.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Util/Zip.hpp b/src/main/cpp/Balau/Util/Zip.hpp
index 0686c74..6aa1cee 100644
--- a/src/main/cpp/Balau/Util/Zip.hpp
+++ b/src/main/cpp/Balau/Util/Zip.hpp
@@ -637,7 +637,9 @@ class Unzipper {
 		std::array<char, 1024 * 2> buffer {};
 
 		while (bytesRemaining > 0) {
-			long long bytesRead = zip_fread(zipFile, buffer.data(), bytesRemaining);
+			long long bytesRead = zip_fread(
+				zipFile, buffer.data(), std::min(bytesRemaining, static_cast<long long>(buffer.size()))
+			);
 
 			if (bytesRead < 0) {
 				// TODO check that this is the right thing to do.
-- 
2.43.0


From 0cac9e1d22a905cc536a76cc6a36a02c6f40dadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:18 +0000
Subject: [PATCH 052/143] fix: reading a truncated zip entry never ended

---
 src/main/cpp/Balau/Util/Zip.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Util/Zip.hpp b/src/main/cpp/Balau/Util/Zip.hpp
index 6aa1cee..abba460 100644
--- a/src/main/cpp/Balau/Util/Zip.hpp
+++ b/src/main/cpp/Balau/Util/Zip.hpp
@@ -594,7 +594,7 @@ class Unzipper {
 		while (bytesRemaining > 0) {
 			long long bytesRead = zip_fread(zipFile, data, bytesRemaining);
 
-			if (bytesRead < 0) {
+			if (bytesRead <= 0) { // There is less data than the archive indicates if zero.
 				// TODO check that this is the right thing to do.
 				if (cleanName.empty()) {
 					throwZipException("Could not read data for entry with index " + ::toString(info.index));
@@ -641,7 +641,7 @@ class Unzipper {
 				zipFile, buffer.data(), std::min(bytesRemaining, static_cast<long long>(buffer.size()))
 			);
 
-			if (bytesRead < 0) {
+			if (bytesRead <= 0) { // There is less data than the archive indicates if zero.
 				// TODO check that this is the right thing to do.
 				if (cleanName.empty()) {
 					throwZipException("Could not read data for entry with index " + ::toString(info.index));
-- 
2.43.0


From f55febd82620f1c91aea74b7faba24dbe19efc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:18 +0000
Subject: [PATCH 053/143] fix: data put into zip archives was read when
 committing from memory that may have been freed

---
 src/main/cpp/Balau/Util/Zip.hpp | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Util/Zip.hpp b/src/main/cpp/Balau/Util/Zip.hpp
index abba460..5c442d7 100644
--- a/src/main/cpp/Balau/Util/Zip.hpp
+++ b/src/main/cpp/Balau/Util/Zip.hpp
@@ -42,7 +42,10 @@
 
 #include <algorithm>
 #include <chrono>
+#include <cstdlib>
+#include <cstring>
 #include <iosfwd>
+#include <new>
 #include <sstream>
 
 #define _Nonnull
@@ -898,7 +901,7 @@ class Zipper : public Unzipper {
 	/// @throw ZipException if the archive is not open
 	///
 	public: void putEntry(const std::string & name, const std::vector<char> & bytes) {
-		putEntry(name, [&bytes, this] () { return zip_source_buffer(Impl::ZipUtilities<>::cast(archive), bytes.data(), bytes.size(), 0); });
+		putEntry(name, [&bytes, this] () { return createSource(bytes.data(), bytes.size()); });
 	}
 
 	///
@@ -913,7 +916,7 @@ class Zipper : public Unzipper {
 	/// @throw ZipException if the archive is not open
 	///
 	public: void putEntry(const std::string & name, const std::string & bytes) {
-		putEntry(name, [&bytes, this] () { return zip_source_buffer(Impl::ZipUtilities<>::cast(archive), bytes.c_str(), bytes.length(), 0); });
+		putEntry(name, [&bytes, this] () { return createSource(bytes.data(), bytes.length()); });
 	}
 
 	///
@@ -1015,6 +1018,27 @@ class Zipper : public Unzipper {
 
 	////////////////////////// Private implementation /////////////////////////
 
+	// Create a source from a copy of the supplied data, which is read when committing.
+	private: zip_source_t * createSource(const char * data, size_t length) {
+		void * const copy = std::malloc(length == 0 ? 1 : length);
+
+		if (copy == nullptr) {
+			throw std::bad_alloc();
+		}
+
+		if (length != 0) {
+			std::memcpy(copy, data, length);
+		}
+
+		zip_source_t * const source = zip_source_buffer(Impl::ZipUtilities<>::cast(archive), copy, length, 1);
+
+		if (source == nullptr) {
+			std::free(copy);
+		}
+
+		return source;
+	}
+
 	// Common implementation for putEntry methods.
 	private: template <typename SourceFunctionT> void putEntry(const std::string & name, SourceFunctionT getSource) {
 		Impl::ZipUtilities<>::checkOpen(*this);
-- 
2.43.0


From 8bc11e5d5a4586d2d1881aeaa5326011537750ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:18 +0000
Subject: [PATCH 054/143] fix: renaming or deleting a directory of a zip
 archive failed if the directory was not empty

---
 src/main/cpp/Balau/Util/Zip.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/main/cpp/Balau/Util/Zip.hpp b/src/main/cpp/Balau/Util/Zip.hpp
index 5c442d7..ad4ce04 100644
--- a/src/main/cpp/Balau/Util/Zip.hpp
+++ b/src/main/cpp/Balau/Util/Zip.hpp
@@ -1071,14 +1071,14 @@ class Zipper : public Unzipper {
 		for (auto & entryName : names) {
 			if (Strings::startsWith(entryName, cleanName)) {
 				std::string newEntryName = newCleanName + entryName.substr(cleanName.length());
-				renameFile(cleanName, newEntryName);
+				renameFile(entryName, newEntryName);
 			}
 		}
 	}
 
 	// Rename a file entry.
 	private: void renameFile(const std::string & cleanName, const std::string & newCleanName) {
-		const long long index = getEntryIndex(cleanName);
+		const long long index = getEntryIndexClean(cleanName);
 
 		if (zip_file_rename(Impl::ZipUtilities<>::cast(archive), static_cast<long long>(index), newCleanName.c_str(), 0) != 0) {
 			ThrowBalauException(Exception::ZipException, "Unable to rename entry: " + cleanName, path);
@@ -1091,14 +1091,14 @@ class Zipper : public Unzipper {
 
 		for (auto & entryName : names) {
 			if (Strings::startsWith(entryName, cleanName)) {
-				deleteFile(cleanName);
+				deleteFile(entryName);
 			}
 		}
 	}
 
 	// Delete a file entry.
 	private: void deleteFile(const std::string & cleanName) {
-		const long long index = getEntryIndex(cleanName);
+		const long long index = getEntryIndexClean(cleanName);
 
 		if (zip_delete(Impl::ZipUtilities<>::cast(archive), static_cast<long long>(index)) != 0) {
 			ThrowBalauException(Exception::ZipException, "Unable to delete entry: " + cleanName, path);
-- 
2.43.0


From b3e6ccde3b408af7f9aa4470c6a3b171baea1f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:18 +0000
Subject: [PATCH 055/143] fix: the entry names of a zip archive could not be
 read after an entry was deleted

---
 src/main/cpp/Balau/Util/Zip.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main/cpp/Balau/Util/Zip.hpp b/src/main/cpp/Balau/Util/Zip.hpp
index ad4ce04..85e10f8 100644
--- a/src/main/cpp/Balau/Util/Zip.hpp
+++ b/src/main/cpp/Balau/Util/Zip.hpp
@@ -323,6 +323,10 @@ class Unzipper {
 
 		for (long long m = 0; m < count; m++) {
 			if (zip_stat_index(Impl::ZipUtilities<>::cast(archive), m, 0, &sb) != 0) {
+				if (zip_error_code_zip(zip_get_error(Impl::ZipUtilities<>::cast(archive))) == ZIP_ER_DELETED) {
+					continue;
+				}
+
 				throwZipException("Could not read information for entry number " + ::toString(m));
 			}
 
-- 
2.43.0


From 28bbf36b5159e96dd13d9d4882e7d6b22333e912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:18 +0000
Subject: [PATCH 056/143] fix: opening another zip archive leaked the archive
 that was open

---
 src/main/cpp/Balau/Util/Zip.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main/cpp/Balau/Util/Zip.hpp b/src/main/cpp/Balau/Util/Zip.hpp
index 85e10f8..c35081e 100644
--- a/src/main/cpp/Balau/Util/Zip.hpp
+++ b/src/main/cpp/Balau/Util/Zip.hpp
@@ -675,6 +675,9 @@ class Unzipper {
 	}
 
 	protected: void openImpl(const Resource::File & path_, bool verify, const std::string & pw, int mode) {
+		// Discard any archive that is already open.
+		close();
+
 		int flags = mode;
 		const std::string modeStr = mode == ZIP_CREATE ? "writing" : "reading";
 
-- 
2.43.0


From b60e3e578e5f7158742fffdc5c39e09bafd67428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:18 +0000
Subject: [PATCH 057/143] fix: reading information about entries of a closed
 zip archive crashed

---
 src/main/cpp/Balau/Util/Zip.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main/cpp/Balau/Util/Zip.hpp b/src/main/cpp/Balau/Util/Zip.hpp
index c35081e..d1f5b7f 100644
--- a/src/main/cpp/Balau/Util/Zip.hpp
+++ b/src/main/cpp/Balau/Util/Zip.hpp
@@ -371,6 +371,7 @@ class Unzipper {
 	/// @throw ZipException if the archive is not open
 	///
 	public: std::string getEntryName(long long index) const {
+		Impl::ZipUtilities<>::checkOpen(*this);
 		ZipEntryInfo info;
 
 		try {
@@ -416,6 +417,7 @@ class Unzipper {
 	/// @throw ZipException if the archive is not open
 	///
 	public: void getEntryInfo(long long index, ZipEntryInfo & info) const {
+		Impl::ZipUtilities<>::checkOpen(*this);
 		zip_stat_t sb {};
 
 		if (zip_stat_index(Impl::ZipUtilities<>::cast(archive), index, 0, &sb) < 0) {
@@ -461,6 +463,7 @@ class Unzipper {
 	/// @throw ZipException if the entry comment could not be obtained
 	///
 	public: std::string readEntryComment(long long index) const {
+		Impl::ZipUtilities<>::checkOpen(*this);
 		const char * comment = zip_file_get_comment(
 			Impl::ZipUtilities<>::cast(archive)
 			, index
-- 
2.43.0


From d502a3acf41d4a0a474b310f297bbfd8aa6d228f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:35 +0000
Subject: [PATCH 058/143] fix: getEntryIndex returned an invalid index instead
 of throwing if there is no such entry

---
 src/main/cpp/Balau/Util/Zip.hpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/main/cpp/Balau/Util/Zip.hpp b/src/main/cpp/Balau/Util/Zip.hpp
index d1f5b7f..d538bbe 100644
--- a/src/main/cpp/Balau/Util/Zip.hpp
+++ b/src/main/cpp/Balau/Util/Zip.hpp
@@ -346,7 +346,7 @@ class Unzipper {
 	/// @throw ZipException if the archive is not open
 	///
 	public: bool hasEntry(const std::string & name) const {
-		return getEntryIndex(name) >= 0;
+		return getEntryIndexClean(cleanUpName(name, EntryType::Either)) >= 0;
 	}
 
 	///
@@ -359,7 +359,13 @@ class Unzipper {
 	///
 	public: long long getEntryIndex(const std::string & name) const {
 		const std::string cleanName = cleanUpName(name, EntryType::Either);
-		return getEntryIndexClean(cleanName);
+		const long long index = getEntryIndexClean(cleanName);
+
+		if (index < 0) {
+			throwZipException("No entry exists with name " + cleanName);
+		}
+
+		return index;
 	}
 
 	///
@@ -397,10 +403,6 @@ class Unzipper {
 		const std::string cleanName = cleanUpName(name, EntryType::Either);
 		const long long index = getEntryIndex(cleanName);
 
-		if (index < 0) {
-			throwZipException("No entry exists with name " + cleanName);
-		}
-
 		try {
 			return getEntryInfo(static_cast<long long>(index), info);
 		} catch (const Exception::ZipException & e) {
@@ -447,10 +449,6 @@ class Unzipper {
 		const std::string cleanName = cleanUpName(name, EntryType::Either);
 		const long long index = getEntryIndex(cleanName);
 
-		if (index < 0) {
-			throwZipException("No entry exists with name " + cleanName);
-		}
-
 		return readEntryComment(static_cast<long long>(index));
 	}
 
-- 
2.43.0


From 9b8010cc284c461fde91ddd403fae2ac8508509b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:35 +0000
Subject: [PATCH 059/143] fix: the password of a zip file was lost when it was
 moved and not used by its uri iterators

---
 src/main/cpp/Balau/Resource/ZipFile.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/main/cpp/Balau/Resource/ZipFile.hpp b/src/main/cpp/Balau/Resource/ZipFile.hpp
index f826863..64a5c23 100644
--- a/src/main/cpp/Balau/Resource/ZipFile.hpp
+++ b/src/main/cpp/Balau/Resource/ZipFile.hpp
@@ -209,7 +209,8 @@ class ZipFile : public File {
 	/// Create a new zip file by moving the contents of the supplied instance.
 	///
 	public: ZipFile(ZipFile && zipFile) noexcept
-		: File(std::move(zipFile)) {}
+		: File(std::move(zipFile))
+		, password(std::move(zipFile.password)) {}
 
 	///
 	/// Assign the zip file by copying the supplied instance.
@@ -266,11 +267,11 @@ class ZipFile : public File {
 	}
 
 	public: std::unique_ptr<RecursiveUriIterator> recursiveIterator() const override {
-		return std::unique_ptr<RecursiveUriIterator>(new RecursiveZipFileUriIterator(*this, false, ""));
+		return std::unique_ptr<RecursiveUriIterator>(new RecursiveZipFileUriIterator(*this, false, password));
 	}
 
 	public: std::unique_ptr<UriIterator> iterator() const override {
-		return std::unique_ptr<UriIterator>(new ZipFileUriIterator(*this, false, ""));
+		return std::unique_ptr<UriIterator>(new ZipFileUriIterator(*this, false, password));
 	}
 
 	///
-- 
2.43.0


From 78970730f6fa0ba088b6c231dc03d6f539f55b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:21 +0000
Subject: [PATCH 060/143] fix: zip entry resources referred to the uri they
 were created from, which may have been destroyed

---
 src/main/cpp/Balau/Resource/ZipEntry.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Resource/ZipEntry.hpp b/src/main/cpp/Balau/Resource/ZipEntry.hpp
index b1c3b12..013ffcd 100644
--- a/src/main/cpp/Balau/Resource/ZipEntry.hpp
+++ b/src/main/cpp/Balau/Resource/ZipEntry.hpp
@@ -360,7 +360,7 @@ class ZipEntryByteReadResource : public ByteReadResource {
 		: entry(entry_)
 		, stream(new boost::iostreams::stream<Impl::ZipEntrySource>(Impl::ZipEntrySource(entry.archive, entry.entryIndex))) {}
 
-	private: const ZipEntry & entry;
+	private: const ZipEntry entry;
 	private: std::unique_ptr<boost::iostreams::stream<Impl::ZipEntrySource>> stream;
 };
 
@@ -406,7 +406,7 @@ class ZipEntryUtf8To32ReadResource : public Utf8To32ReadResource {
 
 	friend class ZipEntry;
 
-	private: const ZipEntry & entry;
+	private: const ZipEntry entry;
 	private: std::unique_ptr<boost::iostreams::stream<Impl::ZipEntrySource>> utf8Stream;
 	private: std::istream & ref;
 	private: std::unique_ptr<istream_utf8_utf32> utf32Stream;
-- 
2.43.0


From 40d9548741bb2ab7175b9066c1d216687b803a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:58 +0000
Subject: [PATCH 061/143] fix: zip entry names with trailing blanks were not
 recognised as names of directories

---
 src/main/cpp/Balau/Util/Zip.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Util/Zip.hpp b/src/main/cpp/Balau/Util/Zip.hpp
index d538bbe..a449e19 100644
--- a/src/main/cpp/Balau/Util/Zip.hpp
+++ b/src/main/cpp/Balau/Util/Zip.hpp
@@ -719,7 +719,7 @@ class Unzipper {
 
 		switch (entryType) {
 			case EntryType::Directory: {
-				if (!isDirectoryName(name)) {
+				if (!isDirectoryName(cleanedName)) {
 					ThrowBalauException(
 						Exception::ZipException
 					, "The supplied entry directory name does not end with a forward slash: " + name
@@ -731,7 +731,7 @@ class Unzipper {
 			}
 
 			case EntryType::File: {
-				if (isDirectoryName(name)) {
+				if (isDirectoryName(cleanedName)) {
 					ThrowBalauException(
 						Exception::ZipException
 					, "The supplied entry file name ends with a forward slash: " + name
-- 
2.43.0


From 27650f5fa29aa6f34136e5675cbd00ded15eb375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:54 +0000
Subject: [PATCH 062/143] fix: damaged data of zip entries and data read with a
 wrong password were not detected

---
 src/main/cpp/Balau/Util/Zip.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/main/cpp/Balau/Util/Zip.hpp b/src/main/cpp/Balau/Util/Zip.hpp
index a449e19..994618e 100644
--- a/src/main/cpp/Balau/Util/Zip.hpp
+++ b/src/main/cpp/Balau/Util/Zip.hpp
@@ -615,6 +615,7 @@ class Unzipper {
 			bytesRemaining -= bytesRead;
 		}
 
+		checkEndOfEntry(zipFile, info);
 		return bytes;
 	}
 
@@ -663,9 +664,19 @@ class Unzipper {
 			bytesRemaining -= bytesRead;
 		}
 
+		checkEndOfEntry(zipFile, info);
 		return str;
 	}
 
+	// The data of an entry is verified (CRC, authentication) when its end is read.
+	private: void checkEndOfEntry(zip_file_t * zipFile, const ZipEntryInfo & info) const {
+		char c = 0;
+
+		if (zip_fread(zipFile, &c, 1) != 0) {
+			ThrowBalauException(Exception::ZipException, "The data of entry " + info.name + " is damaged.", path);
+		}
+	}
+
 	// Used in the cleanUpName method.
 	protected: enum class EntryType {
 		Directory, File, Either
-- 
2.43.0


From c5972ec669a83724a9efc561dc881ad4347a8b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:14 +0000
Subject: [PATCH 063/143] fix: the entry names of a zip archive could not be
 read after an entry was added and deleted in a transaction

---
 src/main/cpp/Balau/Util/Zip.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Util/Zip.hpp b/src/main/cpp/Balau/Util/Zip.hpp
index 994618e..981edc9 100644
--- a/src/main/cpp/Balau/Util/Zip.hpp
+++ b/src/main/cpp/Balau/Util/Zip.hpp
@@ -323,7 +323,10 @@ class Unzipper {
 
 		for (long long m = 0; m < count; m++) {
 			if (zip_stat_index(Impl::ZipUtilities<>::cast(archive), m, 0, &sb) != 0) {
-				if (zip_error_code_zip(zip_get_error(Impl::ZipUtilities<>::cast(archive))) == ZIP_ER_DELETED) {
+				const int error = zip_error_code_zip(zip_get_error(Impl::ZipUtilities<>::cast(archive)));
+
+				// LibZip reports entries that were added and deleted in the transaction as invalid.
+				if (error == ZIP_ER_DELETED || error == ZIP_ER_INVAL) {
 					continue;
 				}
 
-- 
2.43.0


From 0ea685452df47b2c521357089efa744a67f62286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:22 +0000
Subject: [PATCH 064/143] fix: missing parent directories of an existing
 directory were not created in zip archives

---
 src/main/cpp/Balau/Util/Zip.hpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/main/cpp/Balau/Util/Zip.hpp b/src/main/cpp/Balau/Util/Zip.hpp
index 981edc9..9a4de66 100644
--- a/src/main/cpp/Balau/Util/Zip.hpp
+++ b/src/main/cpp/Balau/Util/Zip.hpp
@@ -877,10 +877,6 @@ class Zipper : public Unzipper {
 
 		const std::string cleanName = cleanUpName(name, EntryType::Directory);
 
-		if (hasEntry(cleanName)) {
-			return;
-		}
-
 		const std::string cleanNameNoEndSlash = cleanName.substr(0, cleanName.length() - 1);
 		const std::vector<std::string_view> components = Strings::split(cleanNameNoEndSlash, "/");
 		std::string directoryComponents;
-- 
2.43.0


From c02594faceaa615c31b44a4cc2fea2bbef7f60cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:47 +0000
Subject: [PATCH 065/143] fix: reading zip entries allocated whatever size a
 damaged archive claims

---
 src/main/cpp/Balau/Util/Zip.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/main/cpp/Balau/Util/Zip.hpp b/src/main/cpp/Balau/Util/Zip.hpp
index 9a4de66..09a13fe 100644
--- a/src/main/cpp/Balau/Util/Zip.hpp
+++ b/src/main/cpp/Balau/Util/Zip.hpp
@@ -598,12 +598,15 @@ class Unzipper {
 		}
 
 		OnScopeExit fileCloser([zipFile] () { zip_fclose(zipFile); });
-		std::vector<char> bytes(info.uncompressedSize);
+		std::vector<char> bytes;
 		long long bytesRemaining = info.uncompressedSize;
-		char * data = bytes.data();
 
 		while (bytesRemaining > 0) {
-			long long bytesRead = zip_fread(zipFile, data, bytesRemaining);
+			// The size is only a claim of the archive, thus grow the vector with the data.
+			const size_t previousSize = bytes.size();
+			const long long chunkSize = std::min(bytesRemaining, 1024LL * 1024LL);
+			bytes.resize(previousSize + static_cast<size_t>(chunkSize));
+			long long bytesRead = zip_fread(zipFile, bytes.data() + previousSize, chunkSize);
 
 			if (bytesRead <= 0) { // There is less data than the archive indicates if zero.
 				// TODO check that this is the right thing to do.
@@ -614,7 +617,7 @@ class Unzipper {
 				}
 			}
 
-			data += bytesRead;
+			bytes.resize(previousSize + static_cast<size_t>(bytesRead));
 			bytesRemaining -= bytesRead;
 		}
 
-- 
2.43.0


From f5497c748408674bdd0413644b66bba496600c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:25 +0000
Subject: [PATCH 066/143] fix: the executed flag of single time executors was
 not initialised

---
 src/main/cpp/Balau/Concurrent/SingleTimeExecutor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Concurrent/SingleTimeExecutor.hpp b/src/main/cpp/Balau/Concurrent/SingleTimeExecutor.hpp
index 2db6545..f84a5e0 100644
--- a/src/main/cpp/Balau/Concurrent/SingleTimeExecutor.hpp
+++ b/src/main/cpp/Balau/Concurrent/SingleTimeExecutor.hpp
@@ -122,7 +122,7 @@ class SingleTimeExecutor {
 
 	private: std::function<void ()> code;
 	private: std::function<void ()> destructorCode;
-	private: std::atomic<bool> executed;
+	private: std::atomic<bool> executed { false };
 	private: std::mutex mutex;
 };
 
-- 
2.43.0


From 22986c55101f2f2264c352c7a0ff1cb694b5ff17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:26 +0000
Subject: [PATCH 067/143] fix: terminateProcess did not terminate processes
 that are running

---
 src/main/cpp/Balau/Concurrent/Fork.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Concurrent/Fork.hpp b/src/main/cpp/Balau/Concurrent/Fork.hpp
index 1e723aa..d634b7b 100644
--- a/src/main/cpp/Balau/Concurrent/Fork.hpp
+++ b/src/main/cpp/Balau/Concurrent/Fork.hpp
@@ -290,10 +290,12 @@ class Fork {
 				}
 
 				default: {
-					kill(pid, SIGKILL);
 					break;
 				}
 			}
+		} else {
+			// The process has not terminated.
+			kill(pid, SIGKILL);
 		}
 
 		return TerminationReport();
-- 
2.43.0


From 432d2e5725af96541ee23f74896de300264203df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:50 +0000
Subject: [PATCH 068/143] fix: opened unmanaged shared memory objects were not
 mapped, open or create removed the existing object

---
 .../Interprocess/USharedMemoryObject.hpp      | 20 +++++++++----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/main/cpp/Balau/Interprocess/USharedMemoryObject.hpp b/src/main/cpp/Balau/Interprocess/USharedMemoryObject.hpp
index 1573e67..e5b8ad7 100644
--- a/src/main/cpp/Balau/Interprocess/USharedMemoryObject.hpp
+++ b/src/main/cpp/Balau/Interprocess/USharedMemoryObject.hpp
@@ -91,18 +91,16 @@ template <typename T> class USharedMemoryObject {
 	public: template <typename ... P>
 	USharedMemoryObject(boost::interprocess::open_or_create_t, std::string name_, const P & ... params)
 		: name(std::move(name_)) {
-		boost::interprocess::shared_memory_object::remove(name.c_str());
-
-		boost::interprocess::shared_memory_object shm_obj(
+		sharedMemoryObject = boost::interprocess::shared_memory_object(
 			boost::interprocess::open_or_create, name.c_str(), boost::interprocess::read_write
 		);
 
-		boost::interprocess::offset_t size;
+		boost::interprocess::offset_t size = 0;
 
-		if (shm_obj.get_size(size)) {
-			shm_obj.truncate(sizeof(T));
-			boost::interprocess::mapped_region region(shm_obj, boost::interprocess::read_write);
-			object = new (region.get_address()) T(params ...);
+		if (!sharedMemoryObject.get_size(size) || size == 0) {
+			sharedMemoryObject.truncate(sizeof(T));
+			mappedRegion = boost::interprocess::mapped_region(sharedMemoryObject, boost::interprocess::read_write);
+			object = new (mappedRegion.get_address()) T(params ...);
 		} else {
 			remap();
 		}
@@ -113,7 +111,7 @@ template <typename T> class USharedMemoryObject {
 	///
 	public: USharedMemoryObject(boost::interprocess::open_only_t, std::string name_)
 		: name(std::move(name_)) {
-		boost::interprocess::shared_memory_object sharedMemoryObject(
+		sharedMemoryObject = boost::interprocess::shared_memory_object(
 			boost::interprocess::open_only, name.c_str(), boost::interprocess::read_write
 		);
 
@@ -125,7 +123,7 @@ template <typename T> class USharedMemoryObject {
 	///
 	public: USharedMemoryObject(boost::interprocess::open_read_only_t, std::string name_)
 		: name(std::move(name_)) {
-		boost::interprocess::shared_memory_object shm_obj(
+		sharedMemoryObject = boost::interprocess::shared_memory_object(
 			boost::interprocess::open_only, name.c_str(), boost::interprocess::read_only
 		);
 
@@ -160,7 +158,7 @@ template <typename T> class USharedMemoryObject {
 	}
 
 	public: void remap() {
-		mappedRegion = boost::interprocess::mapped_region(sharedMemoryObject, boost::interprocess::read_write);
+		mappedRegion = boost::interprocess::mapped_region(sharedMemoryObject, sharedMemoryObject.get_mode());
 		object = (T *) mappedRegion.get_address();
 	}
 
-- 
2.43.0


From 8962385b8709bf253d56d0aaa2237734c2e92d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:50 +0000
Subject: [PATCH 069/143] fix: move assigning to an unmanaged shared memory
 object left the shared memory of the target behind

---
 src/main/cpp/Balau/Interprocess/USharedMemoryObject.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/main/cpp/Balau/Interprocess/USharedMemoryObject.hpp b/src/main/cpp/Balau/Interprocess/USharedMemoryObject.hpp
index e5b8ad7..dbe2e95 100644
--- a/src/main/cpp/Balau/Interprocess/USharedMemoryObject.hpp
+++ b/src/main/cpp/Balau/Interprocess/USharedMemoryObject.hpp
@@ -149,6 +149,11 @@ template <typename T> class USharedMemoryObject {
 	/// Assign a shared memory object by moving from a previously created one.
 	///
 	public: USharedMemoryObject & operator = (USharedMemoryObject && rhs) noexcept {
+		if (this == &rhs) {
+			return *this;
+		}
+
+		boost::interprocess::shared_memory_object::remove(name.c_str());
 		name = std::move(rhs.name);
 		sharedMemoryObject = std::move(rhs.sharedMemoryObject);
 		mappedRegion = std::move(rhs.mappedRegion);
-- 
2.43.0


From ba456a6cb05e1ea288ad35729d643eea95c2ddfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:14 +0000
Subject: [PATCH 070/143] fix: open or create removed the existing managed
 shared memory object

---
 src/main/cpp/Balau/Interprocess/MSharedMemoryObject.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/main/cpp/Balau/Interprocess/MSharedMemoryObject.hpp b/src/main/cpp/Balau/Interprocess/MSharedMemoryObject.hpp
index ab0490b..b84be3d 100644
--- a/src/main/cpp/Balau/Interprocess/MSharedMemoryObject.hpp
+++ b/src/main/cpp/Balau/Interprocess/MSharedMemoryObject.hpp
@@ -108,13 +108,11 @@ template <typename T> class MSharedMemoryObject {
 	MSharedMemoryObject(OpenOrCreateSelector, const std::string & name, const P & ... params) {
 		const std::string memoryName = name + "_memory";
 
-		boost::interprocess::shared_memory_object::remove(memoryName.c_str());
-
 		segment = boost::interprocess::managed_shared_memory(
 			boost::interprocess::open_or_create, memoryName.c_str(), metadataOverhead + sizeof(T)
 		);
 
-		object = segment.construct<T>((name + "_object").c_str())(params ...);
+		object = segment.find_or_construct<T>((name + "_object").c_str())(params ...);
 	}
 
 	///
-- 
2.43.0


From 987c1c6f8dda9fd3f5d2995654429dc1e57f6ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:29 +0000
Subject: [PATCH 071/143] fix: opening a managed shared memory object read-only
 crashed

---
 src/main/cpp/Balau/Interprocess/MSharedMemoryObject.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Interprocess/MSharedMemoryObject.hpp b/src/main/cpp/Balau/Interprocess/MSharedMemoryObject.hpp
index b84be3d..703c52c 100644
--- a/src/main/cpp/Balau/Interprocess/MSharedMemoryObject.hpp
+++ b/src/main/cpp/Balau/Interprocess/MSharedMemoryObject.hpp
@@ -146,7 +146,9 @@ template <typename T> class MSharedMemoryObject {
 	public: MSharedMemoryObject(OpenReadOnlySelector, const std::string & name) {
 		const std::string memoryName = name + "_memory";
 		segment = boost::interprocess::managed_shared_memory(boost::interprocess::open_read_only, memoryName.c_str());
-		auto item = segment.find<T>((name + "_object").c_str());
+
+		// The mutex of the segment can't be locked in a read-only mapping.
+		auto item = segment.find_no_lock<T>((name + "_object").c_str());
 
 		if (item.first == nullptr) {
 			ThrowBalauException(
-- 
2.43.0


From 66f95cbbbbacb2eb3e605ba9092fb7f1b3e9986c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:11 +0000
Subject: [PATCH 072/143] fix: managed shared memory objects were never
 removed, moved from objects crashed when destroyed

---
 .../Interprocess/MSharedMemoryObject.hpp      | 66 +++++++++++++++----
 1 file changed, 54 insertions(+), 12 deletions(-)

diff --git a/src/main/cpp/Balau/Interprocess/MSharedMemoryObject.hpp b/src/main/cpp/Balau/Interprocess/MSharedMemoryObject.hpp
index 703c52c..3b21500 100644
--- a/src/main/cpp/Balau/Interprocess/MSharedMemoryObject.hpp
+++ b/src/main/cpp/Balau/Interprocess/MSharedMemoryObject.hpp
@@ -33,6 +33,8 @@
 
 #include <boost/interprocess/managed_shared_memory.hpp>
 
+#include <unistd.h>
+
 namespace Balau::Exception {
 
 ///
@@ -85,7 +87,8 @@ template <typename T> class MSharedMemoryObject {
 	/// The specified name prefix is used.
 	///
 	public: template <typename ... P>
-	MSharedMemoryObject(CreateOnlySelector, const std::string & name, const P & ... params) {
+	MSharedMemoryObject(CreateOnlySelector, const std::string & name_, const P & ... params)
+		: name(name_) {
 		const std::string memoryName = name + "_memory";
 
 		boost::interprocess::shared_memory_object::remove(memoryName.c_str());
@@ -94,6 +97,7 @@ template <typename T> class MSharedMemoryObject {
 			CreateOnlySelector(), memoryName.c_str(), metadataOverhead + sizeof(T)
 		);
 
+		creator = getpid();
 		object = segment.construct<T>((name + "_object").c_str())(params ...);
 	}
 
@@ -105,14 +109,25 @@ template <typename T> class MSharedMemoryObject {
 	/// If the object already exists, it is opened and the supplied parameters are ignored.
 	///
 	public: template <typename ... P>
-	MSharedMemoryObject(OpenOrCreateSelector, const std::string & name, const P & ... params) {
+	MSharedMemoryObject(OpenOrCreateSelector, const std::string & name_, const P & ... params)
+		: name(name_) {
 		const std::string memoryName = name + "_memory";
+		const std::string objectName = name + "_object";
 
 		segment = boost::interprocess::managed_shared_memory(
 			boost::interprocess::open_or_create, memoryName.c_str(), metadataOverhead + sizeof(T)
 		);
 
-		object = segment.find_or_construct<T>((name + "_object").c_str())(params ...);
+		auto findOrConstruct = [&] () {
+			object = segment.find<T>(objectName.c_str()).first;
+
+			if (object == nullptr) {
+				creator = getpid();
+				object = segment.construct<T>(objectName.c_str())(params ...);
+			}
+		};
+
+		segment.atomic_func(findOrConstruct);
 	}
 
 	///
@@ -122,7 +137,8 @@ template <typename T> class MSharedMemoryObject {
 	///
 	/// @throw NotFoundException if no such shared memory object exists
 	///
-	public: MSharedMemoryObject(OpenOnlySelector, const std::string & name) {
+	public: MSharedMemoryObject(OpenOnlySelector, const std::string & name_)
+		: name(name_) {
 		const std::string memoryName = name + "_memory";
 		segment = boost::interprocess::managed_shared_memory(boost::interprocess::open_only, memoryName.c_str());
 		auto item = segment.find<T>((name + "_object").c_str());
@@ -143,7 +159,8 @@ template <typename T> class MSharedMemoryObject {
 	///
 	/// @throw NotFoundException if no such shared memory object exists
 	///
-	public: MSharedMemoryObject(OpenReadOnlySelector, const std::string & name) {
+	public: MSharedMemoryObject(OpenReadOnlySelector, const std::string & name_)
+		: name(name_) {
 		const std::string memoryName = name + "_memory";
 		segment = boost::interprocess::managed_shared_memory(boost::interprocess::open_read_only, memoryName.c_str());
 
@@ -162,9 +179,11 @@ template <typename T> class MSharedMemoryObject {
 	///
 	/// Destroy the shared memory object.
 	///
+	/// The shared memory is removed by the process that created it. Processes
+	/// that have the object open can continue to use it.
+	///
 	public: ~MSharedMemoryObject() {
-		segment.destroy<T>((name + "_memory").c_str());
-		boost::interprocess::shared_memory_object::remove((name + "_object").c_str());
+		removeMemory();
 	}
 
 	///
@@ -173,18 +192,26 @@ template <typename T> class MSharedMemoryObject {
 	public: MSharedMemoryObject(MSharedMemoryObject && rhs) noexcept
 		: name(std::move(rhs.name))
 		, segment(std::move(rhs.segment))
-		, object(rhs.object) {
+		, object(rhs.object)
+		, creator(rhs.creator) {
 		rhs.object = nullptr;
+		rhs.creator = 0;
 	}
 
 	///
 	/// Assign a shared memory object by moving from a previously created one.
 	///
 	public: MSharedMemoryObject & operator = (MSharedMemoryObject && rhs) noexcept {
-		name = std::move(rhs.name);
-		segment = std::move(rhs.segment);
-		object = rhs.object;
-		rhs.object = nullptr;
+		if (this != &rhs) {
+			removeMemory();
+			name = std::move(rhs.name);
+			segment = std::move(rhs.segment);
+			object = rhs.object;
+			creator = rhs.creator;
+			rhs.object = nullptr;
+			rhs.creator = 0;
+		}
+
 		return *this;
 	}
 
@@ -225,9 +252,24 @@ template <typename T> class MSharedMemoryObject {
 	// Reserved memory for metadata/index used in the allocated block.
 	private: static const size_t metadataOverhead = 512;
 
+	template <typename QueueT> friend class SharedMemoryQueue;
+
+	private: bool isCreator() const noexcept {
+		return creator == getpid();
+	}
+
+	private: void removeMemory() noexcept {
+		if (isCreator()) {
+			boost::interprocess::shared_memory_object::remove((name + "_memory").c_str());
+		}
+	}
+
 	private: std::string name;
 	private: boost::interprocess::managed_shared_memory segment;
 	private: T * object = nullptr;
+
+	// The id of the process if it created the shared memory, zero otherwise.
+	private: int creator = 0;
 };
 
 } // namespace Balau::Interprocess
-- 
2.43.0


From da6e439df5cc15ac7bd06c018be63f260b14d702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:11 +0000
Subject: [PATCH 073/143] fix: the shared memory of shared memory queues was
 never removed

---
 .../cpp/Balau/Interprocess/SharedMemoryQueue.hpp     | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp b/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
index 4811e66..737e83a 100644
--- a/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
+++ b/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
@@ -217,6 +217,18 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 		, queueState(OpenOnlySelector(), name + "_queueState")
 		, throwOnOversize(throwOnOversize_) {}
 
+	///
+	/// Destroy the shared memory queue.
+	///
+	/// The shared memory is removed by the process that created the queue. Processes
+	/// that have the queue open can continue to use it.
+	///
+	public: ~SharedMemoryQueue() {
+		if (queueState.isCreator()) {
+			boost::interprocess::message_queue::remove(name.c_str());
+		}
+	}
+
 	///
 	/// Enqueue an object with a priority of zero.
 	///
-- 
2.43.0


From 5b6e1045e5099ef1b55e09a067c8eeca518819c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:11 +0000
Subject: [PATCH 074/143] fix: the open or create constructor of shared memory
 queues with the default buffer size did not compile

---
 src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp b/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
index 737e83a..2a4f635 100644
--- a/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
+++ b/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
@@ -175,7 +175,6 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 			  OpenOrCreateSelector()
 			, capacity
 			, calculateDefaultBufferSize()
-			, true
 			, std::move(name_)
 			, throwOnOversize_
 		) {}
-- 
2.43.0


From 2c548e1b23f060e760415f72c23ef792d0c56565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:11 +0000
Subject: [PATCH 075/143] fix: open or create of an existing shared memory
 queue did not use the buffer size of the queue

---
 src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp b/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
index 2a4f635..417d0d3 100644
--- a/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
+++ b/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
@@ -199,7 +199,7 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 	                          bool throwOnOversize_ = false)
 		: name(std::move(name_))
 		, queue(openOrCreateQueue(capacity, bufferSize_))
-		, chunkSize(bufferSize_)
+		, chunkSize((unsigned int) queue.get_max_msg_size())
 		, queueState(OpenOrCreateSelector(), name + "_queueState")
 		, throwOnOversize(throwOnOversize_) {}
 
-- 
2.43.0


From 25cdc9739b29262239fd4f751775f4ca08e30d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:11 +0000
Subject: [PATCH 076/143] fix: tryEnqueue of shared memory queues used local
 time for the timeout

---
 src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp b/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
index 417d0d3..8594a37 100644
--- a/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
+++ b/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
@@ -377,7 +377,7 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 
 		if (marshalBuffer.size() <= chunkSize) {
 			// The message fits in a single buffer.
-			auto timeout = boost::posix_time::microsec_clock::local_time() + boost::posix_time::millisec(waitTime.count());
+			auto timeout = boost::posix_time::microsec_clock::universal_time() + boost::posix_time::millisec(waitTime.count());
 			return queue.timed_send(marshalBuffer.data(), marshalBuffer.size(), priority, timeout);
 		} else {
 			// Oversize objects cannot be try enqueued, thus an exception is thrown.
-- 
2.43.0


From 1748f0c467664325a2ea7c59a9fe89b136349ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:28 +0000
Subject: [PATCH 077/143] fix: tryDequeue of shared memory queues never set the
 success flag

---
 .../cpp/Balau/Interprocess/SharedMemoryQueue.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp b/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
index 8594a37..caddcbe 100644
--- a/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
+++ b/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
@@ -403,6 +403,7 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 		CharVector & queueBuffer = Impl::SharedMemoryQueueTLS::storage().queueBuffer;
 		unsigned long receivedSize;
 		unsigned int priority;
+		bool success;
 
 		dequeueNextBuffer(queueBuffer, receivedSize, priority, 0);
 
@@ -414,7 +415,7 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 		} else if (queueHeader->chunkNumber < queueHeader->chunkCount) {
 			// The object is split across multiple buffers, potentially interleaved with other buffers.
 			return performMultiChunkDequeue(
-				queueBuffer, receivedSize, priority
+				queueBuffer, receivedSize, priority, success
 				, [this] (CharVector &,
 					      CharVector & queueBuffer,
 					      unsigned long & thisReceivedSize,
@@ -427,7 +428,7 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 		} else {
 			// This is a partially dequeued multi-chunk dequeue which was previously placed on the pending queue.
 			return completeMultiChunkDequeue(
-				queueBuffer, receivedSize, priority
+				queueBuffer, receivedSize, priority, success
 				, [this] (CharVector &,
 					      CharVector & queueBuffer,
 					      unsigned long & thisReceivedSize,
@@ -502,6 +503,8 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 		unsigned long receivedSize;
 		unsigned int priority;
 
+		success = false;
+
 		if (!tryDequeueNextBuffer(queueBuffer, receivedSize, priority, 0, waitTime)) {
 			return T();
 		}
@@ -510,11 +513,12 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 
 		if (queueHeader->chunkCount == 1) {
 			// The entire object fits in a single buffer.
+			success = true;
 			return unmarshal(queueBuffer);
 		} else if (queueHeader->chunkNumber < queueHeader->chunkCount) {
 			// The object is split across multiple buffers, potentially interleaved with other buffers.
 			return performMultiChunkDequeue(
-				queueBuffer, receivedSize, priority
+				queueBuffer, receivedSize, priority, success
 				, [waitTime, this] (CharVector & marshalBuffer,
 					                CharVector & queueBuffer,
 					                unsigned long & thisReceivedSize,
@@ -535,7 +539,7 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 		} else {
 			// This is a partially dequeued multi-chunk dequeue which was previously placed on the pending queue.
 			return completeMultiChunkDequeue(
-				queueBuffer, receivedSize, priority
+				queueBuffer, receivedSize, priority, success
 				, [waitTime, this] (CharVector & marshalBuffer,
 					                CharVector & queueBuffer,
 					                unsigned long & thisReceivedSize,
@@ -583,6 +587,7 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 	T performMultiChunkDequeue(CharVector & queueBuffer,
 	                           unsigned long & receivedSize,
 	                           unsigned int & priority,
+	                           bool & success,
 	                           DequeueFunctionT dequeueFunction) {
 		const auto * queueHeader = (const Impl::QueueHeader *) queueBuffer.data();
 		const unsigned int totalBytes = queueHeader->totalBytes;
@@ -615,6 +620,7 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 			}
 
 			if (partsLeft == 0) {
+				success = true;
 				return unmarshal(marshalBuffer);
 			}
 
@@ -638,6 +644,7 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 	T completeMultiChunkDequeue(CharVector & marshalBuffer,
 	                            unsigned long & receivedSize,
 	                            unsigned int & priority,
+	                            bool & success,
 	                            DequeueFunctionT dequeueFunction) {
 		auto * marshalHeader = (Impl::QueueHeader *) marshalBuffer.data();
 		const unsigned int totalBytes = marshalHeader->totalBytes;
@@ -674,6 +681,7 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 			}
 
 			if (partsLeft == 0) {
+				success = true;
 				return unmarshal(marshalBuffer);
 			}
 		}
-- 
2.43.0


From d8184c2dc127830b447c5507a12aee63eeeb5cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:28 +0000
Subject: [PATCH 078/143] fix: a second timeout while dequeueing an oversize
 object lost the chunks received so far

---
 src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp b/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
index caddcbe..98a7506 100644
--- a/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
+++ b/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
@@ -547,7 +547,7 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 					                size_t rejected) {
 					if (!tryDequeueNextBuffer(queueBuffer, thisReceivedSize, thisPriority, rejected, waitTime)) {
 						pendingBuffers.emplace_front(
-							PendingBuffer(std::move(queueBuffer), queueBuffer.size(), thisPriority)
+							PendingBuffer(std::move(marshalBuffer), marshalBuffer.size(), thisPriority)
 						);
 						marshalBuffer = CharVector();
 						return false;
-- 
2.43.0


From 6b49b95c6157a4540f2b4ea2ad4cd6bbbae08f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:28 +0000
Subject: [PATCH 079/143] fix: dequeueing oversize objects reordered the
 objects that were received in between

---
 .../Balau/Interprocess/SharedMemoryQueue.hpp  | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp b/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
index 98a7506..7dfc879 100644
--- a/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
+++ b/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
@@ -607,8 +607,12 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 
 		while (true) {
 			if (queueHeader->sequenceNumber != sequenceNumber) { // Never true on the first iteration.
+				// Retain the order in which the buffers were received.
+				pendingBuffers.emplace(
+					  pendingBuffers.begin() + rejectedPendingBuffers
+					, PendingBuffer(std::move(queueBuffer), receivedSize, priority)
+				);
 				++rejectedPendingBuffers;
-				pendingBuffers.emplace_back(PendingBuffer(std::move(queueBuffer), receivedSize, priority));
 				queueBuffer = CharVector(chunkSize);
 			} else {
 				// This can occur out of order (if the chunks arrive out of order).
@@ -668,8 +672,12 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 			auto * queueHeader = (const Impl::QueueHeader *) queueBuffer.data();
 
 			if (sequenceNumber != queueHeader->sequenceNumber) {
+				// Retain the order in which the buffers were received.
+				pendingBuffers.emplace(
+					  pendingBuffers.begin() + rejectedPendingBuffers
+					, PendingBuffer(std::move(queueBuffer), receivedSize, priority)
+				);
 				++rejectedPendingBuffers;
-				pendingBuffers.emplace_back(PendingBuffer(std::move(queueBuffer), receivedSize, priority));
 				queueBuffer = CharVector(chunkSize);
 			} else {
 				// This can occur out of order (if the chunks arrive out of order).
@@ -696,9 +704,9 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 	                                unsigned int & priority,
 	                                size_t rejectedPendingBuffers) {
 		if (rejectedPendingBuffers < pendingBuffers.size()) {
-			auto pendingBuffer = pendingBuffers.front();
+			auto pendingBuffer = std::move(pendingBuffers[rejectedPendingBuffers]);
 			buffer = std::move(pendingBuffer.buffer);
-			pendingBuffers.pop_front();
+			pendingBuffers.erase(pendingBuffers.begin() + rejectedPendingBuffers);
 			receivedSize = pendingBuffer.receivedSize;
 			priority = pendingBuffer.priority;
 		} else {
@@ -718,9 +726,9 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 	                                   size_t rejectedPendingBuffers,
 	                                   std::chrono::milliseconds waitTime) {
 		if (rejectedPendingBuffers < pendingBuffers.size()) {
-			auto pendingBuffer = pendingBuffers.front();
+			auto pendingBuffer = std::move(pendingBuffers[rejectedPendingBuffers]);
 			buffer = std::move(pendingBuffer.buffer);
-			pendingBuffers.pop_front();
+			pendingBuffers.erase(pendingBuffers.begin() + rejectedPendingBuffers);
 			receivedSize = pendingBuffer.receivedSize;
 			priority = pendingBuffer.priority;
 			return true;
-- 
2.43.0


From cced57ba697a6951d84bc92c0ea54bb8df12c493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:28 +0000
Subject: [PATCH 080/143] fix: empty() of shared memory queues ignored objects
 received while dequeueing an oversize object

---
 src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp b/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
index 7dfc879..368df12 100644
--- a/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
+++ b/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
@@ -564,7 +564,7 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 	}
 
 	public: bool empty() const override {
-		return queue.get_num_msg() == 0;
+		return pendingBuffers.empty() && queue.get_num_msg() == 0;
 	}
 
 	///
-- 
2.43.0


From c2154426bb8d142a6864002f99697b395d61ebb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:28 +0000
Subject: [PATCH 081/143] fix: dequeueing from shared memory queues could read
 past the received bytes

---
 src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp b/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
index 368df12..252a910 100644
--- a/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
+++ b/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
@@ -769,7 +769,7 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 	private: T unmarshal(const CharVector & buffer) {
 		// Uncomment the following line for debug output.
 		//std::cerr << toString(getpid(), " -\n", Util::PrettyPrint::printHexBytes(buffer.data(), buffer.size(), 90, 2), "\n");
-		SourceBuffer iStreamBuffer(SourceDevice(buffer.data() + HeaderSize, buffer.size()));
+		SourceBuffer iStreamBuffer(SourceDevice(buffer.data() + HeaderSize, buffer.size() - HeaderSize));
 		boost::archive::binary_iarchive archive(iStreamBuffer);
 		T object;
 		archive >> BoostSerialization(object);
-- 
2.43.0


From 5c23fdae1966c32dd207447e2381d6c5eede9db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:18 +0000
Subject: [PATCH 082/143] fix: log messages with fewer parameters than
 placeholders read past the end of the parameters

---
 src/main/cpp/Balau/Logging/Logger.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Logging/Logger.cpp b/src/main/cpp/Balau/Logging/Logger.cpp
index 98eac46..b2351fa 100644
--- a/src/main/cpp/Balau/Logging/Logger.cpp
+++ b/src/main/cpp/Balau/Logging/Logger.cpp
@@ -283,12 +283,13 @@ void Logger::logMessage(const SourceCodeLocation & location,
 	auto messageItems = textToMessageItems(message, parameterCount);
 	LoggerOStringStream messageTextStream;
 	const LoggerStringVector * finalParameters;
+	LoggerStringVector replacementParameters;
 
 	if (parameters.size() < parameterCount) {
 		// The logging message does not have enough parameters.
-		LoggerStringVector replacementParameters = parameters;
+		replacementParameters = parameters;
 
-		while (parameterCount < parameters.size()) {
+		while (replacementParameters.size() < parameterCount) {
 			replacementParameters.emplace_back("????");
 		}
 
-- 
2.43.0


From bf888009b678d00200594ac92e3bb8fd427d2a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:18 +0000
Subject: [PATCH 083/143] fix: parameterised log messages were cut at the first
 null character

---
 src/main/cpp/Balau/Logging/Logger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Logging/Logger.cpp b/src/main/cpp/Balau/Logging/Logger.cpp
index b2351fa..bb03c6c 100644
--- a/src/main/cpp/Balau/Logging/Logger.cpp
+++ b/src/main/cpp/Balau/Logging/Logger.cpp
@@ -313,7 +313,7 @@ void Logger::logMessage(const SourceCodeLocation & location,
 		, logger.ns
 		, level
 		, location.location
-		, messageText.c_str()
+		, std::string_view(messageText.data(), messageText.size())
 		, timePoint
 	);
 
-- 
2.43.0


From c3e9c3a61e522d9b272b43c3ed4a191c4d8d83bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:18 +0000
Subject: [PATCH 084/143] fix: %filepath without a source code location lost
 the rest of the log line

---
 src/main/cpp/Balau/Logging/Impl/LoggerItems.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Logging/Impl/LoggerItems.hpp b/src/main/cpp/Balau/Logging/Impl/LoggerItems.hpp
index 15396ac..d21dfdd 100644
--- a/src/main/cpp/Balau/Logging/Impl/LoggerItems.hpp
+++ b/src/main/cpp/Balau/Logging/Impl/LoggerItems.hpp
@@ -203,7 +203,9 @@ class FilenameLoggerItem : public LogItem {
 // The full path of the file in which the log message is found.
 class FilePathLoggerItem : public LogItem {
 	public: void write(LoggerItemParameters & parameters) const override {
-		parameters.builder << parameters.location;
+		if (parameters.location != nullptr) {
+			parameters.builder << parameters.location;
+		}
 	}
 };
 
-- 
2.43.0


From dbf71dfbb7cc4fa9b64b3893e64f93b3f55e6707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:40 +0000
Subject: [PATCH 085/143] fix: the stream option of a logging namespace did not
 override inherited level specific streams

---
 .../cpp/Balau/Logging/Impl/LoggingState.cpp   | 20 ++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/main/cpp/Balau/Logging/Impl/LoggingState.cpp b/src/main/cpp/Balau/Logging/Impl/LoggingState.cpp
index 1153364..2b0578e 100644
--- a/src/main/cpp/Balau/Logging/Impl/LoggingState.cpp
+++ b/src/main/cpp/Balau/Logging/Impl/LoggingState.cpp
@@ -662,16 +662,18 @@ void LoggingState::propagateConfiguration(LoggerTree & theLoggers) {
 			Logger & parentLogger = *parent->value.getLogger();
 			auto & parentProps = parentLogger.properties;
 
+			// Special treatment is required for stream properties.
+			// Do not propagate the parent's stream properties if
+			// there is a single stream property in the child.
+			const bool hasStream = std::any_of(
+				  loggerProps.begin()
+				, loggerProps.end()
+				, [&streamStr] (const auto & loggerProp) { return Strings::endsWith(loggerProp.first, streamStr); }
+			);
+
 			for (auto & parentProp : parentProps) {
-				if (Strings::endsWith(parentProp.first, streamStr)) {
-					// Special treatment is required for stream properties.
-					// Do not propagate the parent's stream properties if
-					// there is a single stream property in the child.
-					for (auto & loggerProp : loggerProps) {
-						if (Strings::endsWith(loggerProp.first, streamStr)) {
-							continue;
-						}
-					}
+				if (hasStream && Strings::endsWith(parentProp.first, streamStr)) {
+					continue;
 				}
 
 				if (loggerProps.find(parentProp.first) == loggerProps.end()) {
-- 
2.43.0


From d1845631dfa8b62b0c7e8b123a1298574b8d74c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:40 +0000
Subject: [PATCH 086/143] fix: logging files that cannot be opened terminated
 the process

---
 .../cpp/Balau/Logging/Impl/LoggingStreams.cpp  | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/main/cpp/Balau/Logging/Impl/LoggingStreams.cpp b/src/main/cpp/Balau/Logging/Impl/LoggingStreams.cpp
index 10e07f3..eed8149 100644
--- a/src/main/cpp/Balau/Logging/Impl/LoggingStreams.cpp
+++ b/src/main/cpp/Balau/Logging/Impl/LoggingStreams.cpp
@@ -44,21 +44,21 @@ FileLoggingStream::FileLoggingStream(std::shared_ptr<System::Clock> clock_, std:
 	, pathComponents(Util::Vectors::toStringVector(Strings::split(uri, dateRegEx, false)))
 	, running(Strings::occurrences(uri, dateRegEx) == 0) {
 
+	// The first stream is created in the calling thread, in order
+	// to report files that cannot be opened to the caller.
+	createNewStream();
+
 	// Only run the updater thread if the URI contains date placeholders.
 	if (running) {
-		std::unique_lock<std::mutex> lock(syncMutex);
 		updater = std::thread(updateFunction, this);
-		// Wait until the updater thread unlocks this thread.
-		syncCondition.wait(lock);
 	}
 }
 
 FileLoggingStream::~FileLoggingStream() {
 	if (running) {
-		running = false;
-
 		{
 			std::lock_guard<std::mutex> lock(syncMutex);
+			running = false;
 			// Prep the updater thread for unlock.
 			// The updater thread will unlock when this thread releases the lock.
 			syncCondition.notify_all();
@@ -167,13 +167,7 @@ void FileLoggingStream::createNewStream() {
 void FileLoggingStream::updateFunction(FileLoggingStream * const self) {
 	std::unique_lock<std::mutex> lock(self->syncMutex);
 
-	self->createNewStream();
-
-	// Prep the constructor for unlock.
-	// The constructor will unlock when wait is entered in this thread.
-	self->syncCondition.notify_all();
-
-	while (true) {
+	while (self->running) {
 		// The destructor will notify this wait when the system shuts down.
 		self->syncCondition.wait(lock);
 
-- 
2.43.0


From 7a416a181111aa683c119374bc95d53deb01c0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:58 +0000
Subject: [PATCH 087/143] fix: includes in logging configurations crashed

---
 src/main/cpp/Balau/Logging/Impl/LoggerPropertyVisitor.hpp | 4 +++-
 src/main/cpp/Balau/Logging/Impl/LoggingState.cpp          | 6 +++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/main/cpp/Balau/Logging/Impl/LoggerPropertyVisitor.hpp b/src/main/cpp/Balau/Logging/Impl/LoggerPropertyVisitor.hpp
index c8d7097..58c4de8 100644
--- a/src/main/cpp/Balau/Logging/Impl/LoggerPropertyVisitor.hpp
+++ b/src/main/cpp/Balau/Logging/Impl/LoggerPropertyVisitor.hpp
@@ -33,8 +33,10 @@ class LoggerPropertyVisitor : private Lang::Property::PropertyVisitor {
 		LoggerTreeNode * currentLoggerTreeNode = nullptr;
 	};
 
-	public: LoggerTree visit(const Lang::Property::AST::Properties & properties) {
+	// The supplied URI is the URI of the configuration, used to resolve the included URIs.
+	public: LoggerTree visit(const Lang::Property::AST::Properties & properties, std::shared_ptr<Resource::Uri> uri) {
 		LoggerPropertyAstPayload payload;
+		uris.push(std::move(uri));
 		visit(payload, properties);
 		return payload.loggerTree;
 	}
diff --git a/src/main/cpp/Balau/Logging/Impl/LoggingState.cpp b/src/main/cpp/Balau/Logging/Impl/LoggingState.cpp
index 2b0578e..7d0b562 100644
--- a/src/main/cpp/Balau/Logging/Impl/LoggingState.cpp
+++ b/src/main/cpp/Balau/Logging/Impl/LoggingState.cpp
@@ -909,10 +909,10 @@ void LoggingState::setFormats(LoggerTree & theLoggers) {
 
 LoggerTree LoggingState::parseConfiguration(const std::string & configurationText) {
 	printLoggingDebugMessage("parseConfiguration called with text:\n" + configurationText);
-	Resource::StringUri input(configurationText);
-	Lang::Property::AST::Properties properties = Lang::Property::PropertyParserService::parse(input);
+	const auto input = std::make_shared<Resource::StringUri>(configurationText);
+	Lang::Property::AST::Properties properties = Lang::Property::PropertyParserService::parse(*input);
 	LoggerPropertyVisitor visitor;
-	return visitor.visit(properties);
+	return visitor.visit(properties, input);
 }
 
 LoggerTree LoggingState::parseConfiguration(const std::unique_ptr<EnvironmentProperties> & configuration) {
-- 
2.43.0


From d48c3f76106ad151d92883dd69ebfb081ce9b626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:11 +0000
Subject: [PATCH 088/143] fix: the abbreviated namespace of loggers created for
 the ancestors of a configured namespace was wrong

---
 src/main/cpp/Balau/Logging/Impl/LoggerConfigurationVisitor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Logging/Impl/LoggerConfigurationVisitor.hpp b/src/main/cpp/Balau/Logging/Impl/LoggerConfigurationVisitor.hpp
index 9213025..a82d1ca 100644
--- a/src/main/cpp/Balau/Logging/Impl/LoggerConfigurationVisitor.hpp
+++ b/src/main/cpp/Balau/Logging/Impl/LoggerConfigurationVisitor.hpp
@@ -103,7 +103,7 @@ class LoggerConfigurationVisitor {
 			for (size_t m = 0; m < nameSpace.size(); m++) {
 				std::string identifier = std::string(nameSpace[m]);
 				nameSpaceStr += prefix + identifier;
-				std::string thisNs = ns + prefix + (m < nameSpace.size() - 1 ? identifier.substr(0, 1) : identifier);
+				std::string thisNs = ns + prefix + identifier;
 				ns += prefix + identifier.substr(0, 1);
 				prefix = ".";
 				loggerTreeNode = &loggerTreeNode->findOrAddChild(
-- 
2.43.0


From 761d7822da51ecc40b83f58524b252284dd79785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:16 +0000
Subject: [PATCH 089/143] fix: data race between logging to a stream and the
 configuration that created the stream

---
 src/main/cpp/Balau/Logging/Logger.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Logging/Logger.cpp b/src/main/cpp/Balau/Logging/Logger.cpp
index bb03c6c..a0da26d 100644
--- a/src/main/cpp/Balau/Logging/Logger.cpp
+++ b/src/main/cpp/Balau/Logging/Logger.cpp
@@ -234,7 +234,7 @@ void Logger::logMessage(const SourceCodeLocation & location,
                         std::string_view message) {
 	// Apart from compiler ordering restrictions, these atomic reads are free on x86/x64.
 	const LogItemVector * const loggerItems = logger.logItems.load(std::memory_order_acquire);
-	LoggingStream * const stream = logger.streams[Enums::toUnderlying(level)].load(std::memory_order_relaxed);
+	LoggingStream * const stream = logger.streams[Enums::toUnderlying(level)].load(std::memory_order_acquire);
 
 	if (loggerItems == nullptr || stream == nullptr) {
 		return; // The logging system has not yet configured the logger.
@@ -272,7 +272,7 @@ void Logger::logMessage(const SourceCodeLocation & location,
                         const LoggerStringVector & parameters) {
 	// Apart from compiler ordering restrictions, these atomic reads are free on x86/x64.
 	const LogItemVector * const loggerItems = logger.logItems.load(std::memory_order_acquire);
-	LoggingStream * const stream = logger.streams[Enums::toUnderlying(level)].load(std::memory_order_relaxed);
+	LoggingStream * const stream = logger.streams[Enums::toUnderlying(level)].load(std::memory_order_acquire);
 
 	if (loggerItems == nullptr || stream == nullptr) {
 		return; // The logging system has not yet configured the logger.
-- 
2.43.0


From 93ad456a4842b2f8f7b563a1b0a067ccd2e0e4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:48 +0000
Subject: [PATCH 090/143] fix: the namespaces option of the test runner had no
 effect, and group names that are mangled types crashed the runner

---
 src/main/cpp/Balau/Testing/TestRunner.hpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/main/cpp/Balau/Testing/TestRunner.hpp b/src/main/cpp/Balau/Testing/TestRunner.hpp
index 0208ff0..ecdb019 100644
--- a/src/main/cpp/Balau/Testing/TestRunner.hpp
+++ b/src/main/cpp/Balau/Testing/TestRunner.hpp
@@ -586,17 +586,27 @@ class TestRunner : public Impl::TestRunnerBase {
 
 		useNamespaces = useNamespaces_;
 
+		if (!useNamespaces) {
+			// Test cases are registered without the namespaces of their test groups.
+			return;
+		}
+
+		std::unordered_map<std::string, std::vector<Impl::TestCase>> renamedTestCases;
+
 		for (auto & testCaseGroup : testCasesByGroup) {
-			auto & testCaseVector = testCaseGroup.second;
+			for (auto & testCase : testCaseGroup.second) {
+				auto groupName = boost::core::demangle(typeid(*testCase.group).name());
+				auto testName = groupName + testCase.name.substr(testCaseGroup.first.length());
 
-			if (!testCaseVector.empty()) {
-				testCaseVector[0].group->setGroupName(
-					Impl::TestRunnerExecutor::extractTypeName(
-						testCaseVector[0].group->getGroupName().c_str(), useNamespaces
-					)
+				renamedTestCases[groupName].emplace_back(
+					Impl::TestCase(testCase.group, std::move(testCase.method), std::move(testName))
 				);
+
+				testCase.group->setGroupName(std::move(groupName));
 			}
 		}
+
+		testCasesByGroup = std::move(renamedTestCases);
 	}
 
 	private: void log(const std::string & string) {
-- 
2.43.0


From d393c1b675a5639076fa497795f911ed7fa23cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:48 +0000
Subject: [PATCH 091/143] fix: the reports of test groups that have the same
 name in different namespaces lost results

---
 src/main/cpp/Balau/Testing/Impl/TestRunnerExecutor.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Testing/Impl/TestRunnerExecutor.hpp b/src/main/cpp/Balau/Testing/Impl/TestRunnerExecutor.hpp
index d4fc30e..3d5a0d9 100644
--- a/src/main/cpp/Balau/Testing/Impl/TestRunnerExecutor.hpp
+++ b/src/main/cpp/Balau/Testing/Impl/TestRunnerExecutor.hpp
@@ -296,7 +296,8 @@ class TestRunnerExecutor {
 					groupTestResults.reserve(groupCount);
 
 					for (auto & thisTestResult : testResults) {
-						if (thisTestResult.groupIndex == testResult.groupIndex) {
+						// Groups with the same name are reported together.
+						if (tests[thisTestResult.testIndex].group->getGroupName() == testGroupName) {
 							groupTestResults.push_back(&thisTestResult);
 							groupDuration += std::chrono::nanoseconds(thisTestResult.duration);
 						}
-- 
2.43.0


From 76e6601487b7c09e16737d17b989c340b3444ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:48 +0000
Subject: [PATCH 092/143] fix: test runs without a report generator crashed

---
 src/main/cpp/Balau/Testing/Impl/TestRunnerExecutor.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Testing/Impl/TestRunnerExecutor.hpp b/src/main/cpp/Balau/Testing/Impl/TestRunnerExecutor.hpp
index 3d5a0d9..1489a03 100644
--- a/src/main/cpp/Balau/Testing/Impl/TestRunnerExecutor.hpp
+++ b/src/main/cpp/Balau/Testing/Impl/TestRunnerExecutor.hpp
@@ -308,7 +308,9 @@ class TestRunnerExecutor {
 							writer << " Group duration (core clock time) = " << durationStr(groupDuration) << "\n";
 
 							// Call the report generator for this completed test group.
-							reportGenerator->generate(*test.group, groupDuration, groupTestResults);
+							if (reportGenerator) {
+								reportGenerator->generate(*test.group, groupDuration, groupTestResults);
+							}
 
 							break;
 						}
-- 
2.43.0


From d10bcf8a3c6ba6928adabf2795c3de363dd1501a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:48 +0000
Subject: [PATCH 093/143] fix: regular expression characters in test names were
 not taken literally by the test selection

---
 .../Balau/Testing/Impl/TestRunnerExecutor.hpp | 21 ++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/main/cpp/Balau/Testing/Impl/TestRunnerExecutor.hpp b/src/main/cpp/Balau/Testing/Impl/TestRunnerExecutor.hpp
index 1489a03..7454c52 100644
--- a/src/main/cpp/Balau/Testing/Impl/TestRunnerExecutor.hpp
+++ b/src/main/cpp/Balau/Testing/Impl/TestRunnerExecutor.hpp
@@ -330,9 +330,24 @@ class TestRunnerExecutor {
 	//  - ? translates to .
 	//
 	private: static std::string createRegexString(const std::string & testName) {
-		static const std::regex questionRegex("\\?");
-		static const std::regex asterixRegex("\\*");
-		return Util::Strings::replaceAll(Util::Strings::replaceAll(testName, questionRegex, "."), asterixRegex, ".*");
+		std::string regexString;
+
+		for (const char c : testName) {
+			switch (c) {
+				case '*': regexString += ".*"; break;
+				case '?': regexString += '.'; break;
+
+				case '^': case '$': case '\\': case '.': case '+': case '(': case ')': case '[': case ']': case '{': case '}': case '|': {
+					regexString += '\\';
+					regexString += c;
+					break;
+				}
+
+				default: regexString += c; break;
+			}
+		}
+
+		return regexString;
 	}
 
 	private: static std::vector<std::regex> parseTestList(const std::string & testList) {
-- 
2.43.0


From 7f14f02485f95bea3e9b72c54ac423f170b0a4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:48 +0000
Subject: [PATCH 094/143] fix: a crash of the first test in a multi-process
 test run made the run hang

---
 .../Impl/MultiProcessTestRunnerExecutor.hpp   | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/main/cpp/Balau/Testing/Impl/MultiProcessTestRunnerExecutor.hpp b/src/main/cpp/Balau/Testing/Impl/MultiProcessTestRunnerExecutor.hpp
index cb22811..0e33d1b 100644
--- a/src/main/cpp/Balau/Testing/Impl/MultiProcessTestRunnerExecutor.hpp
+++ b/src/main/cpp/Balau/Testing/Impl/MultiProcessTestRunnerExecutor.hpp
@@ -59,7 +59,7 @@ class MultiProcessTestRunnerExecutor : public TestRunnerExecutor {
 		// Shared atomic int, providing the next test case index to run.
 		std::atomic_uint nextTestIndex { 0 };
 
-		// Non shared ints, providing the current test case index that a child process is running.
+		// Non shared ints, providing one plus the current test case index that a child process is running, or zero if none.
 		// These are checked when a child process starts up in order to determine if a child process seg-faulted.
 		std::array<unsigned int, TestRunnerLimits::MaxConcurrency> currentTestIndices { 0 };
 	};
@@ -136,10 +136,11 @@ class MultiProcessTestRunnerExecutor : public TestRunnerExecutor {
 		const std::string pidStr = getPidString();
 
 		// Check for previous failed test due to segfault of previous child process.
-		unsigned int testIndex = getCurrentTestIndex(childProcessIndex);
+		unsigned int testIndex;
 
-		if (testIndex != 0) {
-			reportSegFaultedTest(pidStr, tests[testIndex]);
+		if (hasUnreportedTest(childProcessIndex)) {
+			reportSegFaultedTest(pidStr, tests[sharedState->currentTestIndices[childProcessIndex] - 1]);
+			resetCurrentTestIndex(childProcessIndex);
 		}
 
 		if (singleShot) {
@@ -160,6 +161,9 @@ class MultiProcessTestRunnerExecutor : public TestRunnerExecutor {
 				}
 
 				runTest(pidStr, tests[testIndex]);
+
+				// Reset current test index (no segfault).
+				resetCurrentTestIndex(childProcessIndex);
 			}
 		}
 	}
@@ -198,8 +202,9 @@ class MultiProcessTestRunnerExecutor : public TestRunnerExecutor {
 		return str.str();
 	}
 
-	private: unsigned int getCurrentTestIndex(unsigned int childProcessIndex) {
-		return sharedState->currentTestIndices[childProcessIndex];
+	// Did the last child process of the slot terminate without having finished the test that it was running?
+	protected: bool hasUnreportedTest(size_t childProcessIndex) {
+		return sharedState->currentTestIndices[childProcessIndex] != 0;
 	}
 
 	private: void resetCurrentTestIndex(unsigned int childProcessIndex) {
@@ -208,7 +213,7 @@ class MultiProcessTestRunnerExecutor : public TestRunnerExecutor {
 
 	private: unsigned int claimNextTestIndex(unsigned int childProcessIndex) {
 		unsigned int thisTestIndex = sharedState->nextTestIndex++;
-		sharedState->currentTestIndices[childProcessIndex] = thisTestIndex;
+		sharedState->currentTestIndices[childProcessIndex] = thisTestIndex < tests.size() ? thisTestIndex + 1 : 0;
 		return thisTestIndex;
 	}
 };
-- 
2.43.0


From 62c578538886f2e7ee68f606adff63487c3cb858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:48 +0000
Subject: [PATCH 095/143] fix: a test that exited its worker process made the
 test run hang

---
 .../Testing/Impl/WorkerProcessesTestRunnerExecutor.hpp     | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Testing/Impl/WorkerProcessesTestRunnerExecutor.hpp b/src/main/cpp/Balau/Testing/Impl/WorkerProcessesTestRunnerExecutor.hpp
index 0aef7a0..ead1305 100644
--- a/src/main/cpp/Balau/Testing/Impl/WorkerProcessesTestRunnerExecutor.hpp
+++ b/src/main/cpp/Balau/Testing/Impl/WorkerProcessesTestRunnerExecutor.hpp
@@ -123,9 +123,12 @@ class WorkerProcessesTestRunnerExecutor : public MultiProcessTestRunnerExecutor
 							);
 						}
 
+						// If the process was exited by a test, a new child process will be created for this slot.
+						// Otherwise, a negative entry in pid vector indicates no regen.
+						const bool regenRequired = hasUnreportedTest(pidIndexByPid.at(pid));
 						pidIndexByPid.erase(pid);
-						// Negative entry in pid vector indicates no regen.
-						pid = -1;
+						pid = regenRequired ? 0 : -1;
+						childProcessesRegenRequired |= regenRequired;
 
 						break;
 					}
-- 
2.43.0


From 560894cfb64cb9c40ec8d9d912612eaab8c2e439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:17 +0000
Subject: [PATCH 096/143] fix: concurrent logging by tests to an output stream
 test writer raced

---
 src/main/cpp/Balau/Testing/Writers/StdWriters.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main/cpp/Balau/Testing/Writers/StdWriters.hpp b/src/main/cpp/Balau/Testing/Writers/StdWriters.hpp
index 2aabd07..c6de567 100644
--- a/src/main/cpp/Balau/Testing/Writers/StdWriters.hpp
+++ b/src/main/cpp/Balau/Testing/Writers/StdWriters.hpp
@@ -77,6 +77,7 @@ class OStreamTestWriter : public TestWriter {
 	public: explicit OStreamTestWriter(std::ostream & stream_) : stream(stream_) {}
 
 	public: void writeString(const std::string & str) override {
+		std::lock_guard<std::mutex> lock(mutex);
 		stream << str;
 	}
 
@@ -87,6 +88,7 @@ class OStreamTestWriter : public TestWriter {
 	////////////////////////// Private implementation /////////////////////////
 
 	private: std::ostream & stream;
+	private: std::mutex mutex;
 };
 
 } // namespace Balau::Testing
-- 
2.43.0


From 11e11da32c08a1889ed7008e672083d8db35566a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:39 +0000
Subject: [PATCH 097/143] fix: the starts with assertion compared the object
 representations of the elements of vectors

---
 src/main/cpp/Balau/Testing/Impl/MatcherClasses.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Testing/Impl/MatcherClasses.hpp b/src/main/cpp/Balau/Testing/Impl/MatcherClasses.hpp
index 12fdc07..9c118bb 100644
--- a/src/main/cpp/Balau/Testing/Impl/MatcherClasses.hpp
+++ b/src/main/cpp/Balau/Testing/Impl/MatcherClasses.hpp
@@ -247,7 +247,7 @@ template <typename AE> class MatcherFunction<std::vector<AE>, std::vector<AE>, E
 
 	public: bool matches(const std::vector<AE> & actual, const std::vector<AE> & expected) const {
 		// Compilation error? Do the types have the operator functions in scope?
-		return actual.size() >= expected.size() && std::memcmp(actual.data(), expected.data(), expected.size() * sizeof(AE)) == 0;
+		return actual.size() >= expected.size() && std::equal(expected.begin(), expected.end(), actual.begin());
 	}
 
 	public: EvNotUsed value() { return EvNotUsed(); }
-- 
2.43.0


From 132a486e4531a93cc9d83cef02ea0a5087f9f8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:39 +0000
Subject: [PATCH 098/143] fix: the almost equal assertion failed for unsigned
 values close to the limits of the type

---
 src/main/cpp/Balau/Testing/Impl/MatcherClasses.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Testing/Impl/MatcherClasses.hpp b/src/main/cpp/Balau/Testing/Impl/MatcherClasses.hpp
index 9c118bb..1b5a133 100644
--- a/src/main/cpp/Balau/Testing/Impl/MatcherClasses.hpp
+++ b/src/main/cpp/Balau/Testing/Impl/MatcherClasses.hpp
@@ -227,7 +227,12 @@ template <typename A, typename E, typename V> class MatcherFunction<A, E, V, Mat
 
 	public: bool matches(const A & actual, const E & expected) const {
 		// Compilation error? Do the types have the operator functions in scope?
-		return actual >= expected - errorDelta && actual <= expected + errorDelta;
+		if constexpr (std::is_unsigned_v<A> && std::is_unsigned_v<E>) {
+			// Unsigned limits could wrap around.
+			return (actual < expected ? expected - actual : actual - expected) <= errorDelta;
+		} else {
+			return actual >= expected - errorDelta && actual <= expected + errorDelta;
+		}
 	}
 };
 
-- 
2.43.0


From afcad5c0aa63170b0c2121520581ffaf3a361f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:39 +0000
Subject: [PATCH 099/143] fix: the is not null assertion read a dangling
 reference

---
 src/main/cpp/Balau/Testing/Matchers.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Testing/Matchers.hpp b/src/main/cpp/Balau/Testing/Matchers.hpp
index 61bfc4c..55493cd 100644
--- a/src/main/cpp/Balau/Testing/Matchers.hpp
+++ b/src/main/cpp/Balau/Testing/Matchers.hpp
@@ -50,7 +50,8 @@ inline ExpectedValue<E, MatcherCompareNotEqual, EvNotUsed, EvNotUsed> isNot(cons
 /// Is the actual value not equal to the supplied expected value?
 ///
 inline ExpectedValue<void *, MatcherCompareNotEqual, EvNotUsed, EvNotUsed> isNotNull() {
-	return ExpectedValue<void *, MatcherCompareNotEqual, EvNotUsed, EvNotUsed>(nullptr);
+	static void * const null = nullptr;
+	return ExpectedValue<void *, MatcherCompareNotEqual, EvNotUsed, EvNotUsed>(null);
 }
 
 ///
-- 
2.43.0


From 8deae4d214f6fa0d5702a63f47357c6d36f3e218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:39 +0000
Subject: [PATCH 100/143] fix: failed assertions on long strings overflowed the
 stack

---
 src/main/cpp/Balau/Testing/Impl/StandardRenderers.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/main/cpp/Balau/Testing/Impl/StandardRenderers.hpp b/src/main/cpp/Balau/Testing/Impl/StandardRenderers.hpp
index f93d541..a039432 100644
--- a/src/main/cpp/Balau/Testing/Impl/StandardRenderers.hpp
+++ b/src/main/cpp/Balau/Testing/Impl/StandardRenderers.hpp
@@ -41,11 +41,10 @@ std::string render(const A & actual, const E & expected) {
 	};
 
 	auto stripNewLine = [] (const std::string & input) -> std::string {
-		static const std::regex lineBreakEnding("(.*)(\r\n|\r|\n)");
-		std::smatch match;
-
-		if (std::regex_match(input, match, lineBreakEnding)) {
-			return match[1];
+		for (const char * lineBreak : { "\r\n", "\r", "\n" }) {
+			if (Util::Strings::endsWith(input, lineBreak)) {
+				return input.substr(0, input.length() - std::strlen(lineBreak));
+			}
 		}
 
 		return input;
-- 
2.43.0


From d02461adebc898055aa158ee4be1894c72fa9efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:39 +0000
Subject: [PATCH 101/143] fix: failed assertions on empty strings read before
 the start of the string

---
 src/main/cpp/Balau/Testing/Impl/StandardRenderers.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Testing/Impl/StandardRenderers.hpp b/src/main/cpp/Balau/Testing/Impl/StandardRenderers.hpp
index a039432..b6d26dd 100644
--- a/src/main/cpp/Balau/Testing/Impl/StandardRenderers.hpp
+++ b/src/main/cpp/Balau/Testing/Impl/StandardRenderers.hpp
@@ -174,8 +174,8 @@ std::string render(const A & actual, const E & expected) {
 		expectedExtra = true;
 	}
 
-	const bool actualEndsWithNewline = actualString.back() == '\n';
-	const bool expectedEndsWithNewline = expectedString.back() == '\n';
+	const bool actualEndsWithNewline = !actualString.empty() && actualString.back() == '\n';
+	const bool expectedEndsWithNewline = !expectedString.empty() && expectedString.back() == '\n';
 
 	if (actualEndsWithNewline && actualExtra) {
 		builder << std::right << std::setw((int) maxLineNumberWidth) << toString(lineCount)
-- 
2.43.0


From 0856b7c281d18940e47796618c111180215c4e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:26 +0000
Subject: [PATCH 102/143] fix: the uncompressed stream of a gzip file read from
 a destroyed file stream

---
 src/main/cpp/Balau/Util/Compression.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Util/Compression.hpp b/src/main/cpp/Balau/Util/Compression.hpp
index afabcb2..2e5ee95 100644
--- a/src/main/cpp/Balau/Util/Compression.hpp
+++ b/src/main/cpp/Balau/Util/Compression.hpp
@@ -36,6 +36,7 @@
 #include <iosfwd>
 #include <sstream>
 
+#include <boost/iostreams/device/file.hpp>
 #include <boost/iostreams/filtering_stream.hpp>
 
 namespace Balau {
@@ -131,11 +132,10 @@ struct GZip final {
 	/// @return an input stream wrapper supplying a uncompressed stream
 	///
 	static void gunzip(const Resource::File & input, std::unique_ptr<std::istream> & stream) {
-		boost::filesystem::ifstream inputStream(input.getEntry(), std::ios::binary);
 		stream = std::make_unique<boost::iostreams::filtering_istream>();
 		auto * filterStream = static_cast<boost::iostreams::filtering_istream *>(stream.get());
 		filterStream->push(boost::iostreams::gzip_decompressor());
-		filterStream->push(inputStream);
+		filterStream->push(boost::iostreams::file_source(input.getEntry().path().string(), std::ios::binary));
 	}
 
 	///////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From d8e884e357fa4d8c80179834da521b563534071a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:26 +0000
Subject: [PATCH 103/143] fix: directories and files that could not be opened
 were hashed as empty files

---
 src/main/cpp/Balau/Util/Hashing.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Util/Hashing.hpp b/src/main/cpp/Balau/Util/Hashing.hpp
index 22a3d78..1ce613c 100644
--- a/src/main/cpp/Balau/Util/Hashing.hpp
+++ b/src/main/cpp/Balau/Util/Hashing.hpp
@@ -219,13 +219,13 @@ struct Hashing final {
 	////////////////////////// Private implementation /////////////////////////
 
 	private: static std::unique_ptr<boost::filesystem::ifstream> getFileStream(const Resource::File & file) {
-		if (!file.exists()) {
+		if (!file.isRegularFile()) {
 			ThrowBalauException(Exception::FileNotFoundException, file);
 		}
 
 		auto stream = std::make_unique<boost::filesystem::ifstream>(file.getEntry(), std::ios::in | std::ios::binary);
 
-		if (!stream.get()) {
+		if (!stream->is_open()) {
 			ThrowBalauException(Exception::CouldNotOpenException, file.clone());
 		}
 
-- 
2.43.0


From 38dfe4a126a30799278f8e51785bd67fd65fe673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:26 +0000
Subject: [PATCH 104/143] fix: directories passed to the file reading utilities
 were not reported as documented

---
 src/main/cpp/Balau/Util/Files.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/main/cpp/Balau/Util/Files.hpp b/src/main/cpp/Balau/Util/Files.hpp
index 895e52f..5d33720 100644
--- a/src/main/cpp/Balau/Util/Files.hpp
+++ b/src/main/cpp/Balau/Util/Files.hpp
@@ -98,7 +98,7 @@ struct Files final {
 	/// @throw FileNotFoundException if the file does not exist or is not a regular file
 	///
 	static std::vector<std::string> toLines(const Resource::File & file) {
-		if (!file.exists()) {
+		if (!file.isRegularFile()) {
 			ThrowBalauException(Exception::FileNotFoundException, file);
 		}
 
@@ -119,7 +119,7 @@ struct Files final {
 	/// @throw FileNotFoundException if the file does not exist or is not a regular file
 	///
 	static std::string readToString(const Resource::File & file) {
-		if (!file.exists()) {
+		if (!file.isRegularFile()) {
 			ThrowBalauException(Exception::FileNotFoundException, file);
 		}
 
@@ -134,7 +134,7 @@ struct Files final {
 	/// @throw FileNotFoundException if the file does not exist or is not a regular file
 	///
 	static std::vector<char> readToVector(const Resource::File & file) {
-		if (!file.exists()) {
+		if (!file.isRegularFile()) {
 			ThrowBalauException(Exception::FileNotFoundException, file);
 		}
 
-- 
2.43.0


From 7391884957587bbedabb6b6ee79487fc633162a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:26 +0000
Subject: [PATCH 105/143] fix: obtaining a SHA-3 or Keccak hash corrupted the
 state of the hash object

---
 src/main/cpp/Balau/ThirdParty/HashLibrary/keccak.h | 12 ++++++++++++
 src/main/cpp/Balau/ThirdParty/HashLibrary/sha3.h   | 12 ++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/src/main/cpp/Balau/ThirdParty/HashLibrary/keccak.h b/src/main/cpp/Balau/ThirdParty/HashLibrary/keccak.h
index 6c331dd..62ec662 100644
--- a/src/main/cpp/Balau/ThirdParty/HashLibrary/keccak.h
+++ b/src/main/cpp/Balau/ThirdParty/HashLibrary/keccak.h
@@ -105,6 +105,13 @@ class Keccak //: public Hash
 
 	/// return latest hash as hex characters
 	public: std::string getHash() {
+		// save old hash
+		uint64_t oldHash[StateSize];
+
+		for (int i = 0; i < StateSize; i++) {
+			oldHash[i] = m_hash[i];
+		}
+
 		// process remaining bytes
 		processBuffer();
 
@@ -138,6 +145,11 @@ class Keccak //: public Hash
 			processed += 8;
 		}
 
+		// restore old hash
+		for (int i = 0; i < StateSize; i++) {
+			m_hash[i] = oldHash[i];
+		}
+
 		return result;
 	}
 
diff --git a/src/main/cpp/Balau/ThirdParty/HashLibrary/sha3.h b/src/main/cpp/Balau/ThirdParty/HashLibrary/sha3.h
index 52208d0..2987fc7 100644
--- a/src/main/cpp/Balau/ThirdParty/HashLibrary/sha3.h
+++ b/src/main/cpp/Balau/ThirdParty/HashLibrary/sha3.h
@@ -110,6 +110,13 @@ class SHA3 //: public Hash
 
 	/// return latest hash as hex characters
 	public: std::string getHash() {
+		// save old hash
+		uint64_t oldHash[StateSize];
+
+		for (int i = 0; i < StateSize; i++) {
+			oldHash[i] = m_hash[i];
+		}
+
 		// process remaining bytes
 		processBuffer();
 
@@ -143,6 +150,11 @@ class SHA3 //: public Hash
 			processed += 8U;
 		}
 
+		// restore old hash
+		for (int i = 0; i < StateSize; i++) {
+			m_hash[i] = oldHash[i];
+		}
+
 		return result;
 	}
 
-- 
2.43.0


From 5f413f7e8e64c27dbae5b3c858abcc1f46f648c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:07 +0000
Subject: [PATCH 106/143] fix: the URL decoder read past the end of input that
 ends with an escape

The loop that consumes successive %XX escapes examined the character after
the last escape without checking that there is one.
---
 src/main/cpp/Balau/Network/Utilities/UrlDecode.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Network/Utilities/UrlDecode.hpp b/src/main/cpp/Balau/Network/Utilities/UrlDecode.hpp
index 2241bfc..36bb004 100644
--- a/src/main/cpp/Balau/Network/Utilities/UrlDecode.hpp
+++ b/src/main/cpp/Balau/Network/Utilities/UrlDecode.hpp
@@ -127,7 +127,7 @@ struct UrlDecode {
 				case '%': {
 					std::string thisOutput;
 
-					while (input[index] == '%') {
+					while (index < input.length() && input[index] == '%') {
 						++index;
 
 						if (index == input.length()) {
-- 
2.43.0


From c5ad03f4e0dc89c88b64bc653d3cc199af81a372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:07 +0000
Subject: [PATCH 107/143] fix: the URL decoder threw conversion exceptions on
 invalid escapes

Errors are to be ignored, or reported as NetworkException when throwOnError
is set. An escape whose two characters are not hexadecimal digits raised a
ConversionException in both cases.
---
 .../cpp/Balau/Network/Utilities/UrlDecode.hpp | 26 ++++++++++++++++---
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/main/cpp/Balau/Network/Utilities/UrlDecode.hpp b/src/main/cpp/Balau/Network/Utilities/UrlDecode.hpp
index 36bb004..2e1734e 100644
--- a/src/main/cpp/Balau/Network/Utilities/UrlDecode.hpp
+++ b/src/main/cpp/Balau/Network/Utilities/UrlDecode.hpp
@@ -152,11 +152,20 @@ struct UrlDecode {
 						}
 
 						// Try to convert the hex character pair into an unsigned byte.
-						std::string_view v = input.substr(x, 2);
-						unsigned char b;
-						fromString(b, v, 16);
-						thisOutput += (char) b;
+						const int high = hexDigit(input[x]);
+						const int low = hexDigit(input[x + 1]);
 						++index;
+
+						if (high < 0 || low < 0) {
+							// Illegal input.. % character not followed by two hexadecimal characters.
+							if (throwOnError) {
+								ThrowBalauException(Exception::NetworkException, "Invalid percent encoded string");
+							}
+
+							continue;
+						}
+
+						thisOutput += (char) (high * 16 + low);
 					}
 
 					bool valid = true;
@@ -199,6 +208,15 @@ struct UrlDecode {
 
 	////////////////////////// Private implementation /////////////////////////
 
+	private: static int hexDigit(char c) {
+		return c >= '0' && c <= '9' ? c - '0'
+			: c >= 'a' && c <= 'f' ? c - 'a' + 10
+			: c >= 'A' && c <= 'F' ? c - 'A' + 10
+			: -1;
+	}
+
+	public:
+
 	UrlDecode() = delete;
 	UrlDecode(const UrlDecode &) = delete;
 	UrlDecode & operator = (const UrlDecode &) = delete;
-- 
2.43.0


From c7941f9edaf73c1c5ef93934a7e63817f7aeb4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:07 +0000
Subject: [PATCH 108/143] fix: the URL decoder never detected invalid UTF-8

ICU reports an invalid sequence via a negative code point, not via a
negative offset, hence validateUtf8 had no effect.
---
 src/main/cpp/Balau/Network/Utilities/UrlDecode.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Network/Utilities/UrlDecode.hpp b/src/main/cpp/Balau/Network/Utilities/UrlDecode.hpp
index 2e1734e..be3c3b9 100644
--- a/src/main/cpp/Balau/Network/Utilities/UrlDecode.hpp
+++ b/src/main/cpp/Balau/Network/Utilities/UrlDecode.hpp
@@ -174,9 +174,9 @@ struct UrlDecode {
 						int offset = 0;
 
 						while (offset != (int) thisOutput.length()) {
-							Character::getNextUtf8Safe(thisOutput, offset);
+							const auto codePoint = (int32_t) Character::getNextUtf8Safe(thisOutput, offset);
 
-							if (offset < 0) {
+							if (codePoint < 0) {
 								// Not valid UTF-8.
 								if (throwOnError) {
 									ThrowBalauException(Exception::NetworkException, "Invalid percent encoded string");
-- 
2.43.0


From d465e0094b7a0ea33e4842c1c8bdfa6daa161ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:11 +0000
Subject: [PATCH 109/143] fix: bytes with the high bit set were printed as four
 bytes of hexadecimal

---
 src/main/cpp/Balau/Util/PrettyPrint.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/main/cpp/Balau/Util/PrettyPrint.hpp b/src/main/cpp/Balau/Util/PrettyPrint.hpp
index 7e0c408..68328cd 100644
--- a/src/main/cpp/Balau/Util/PrettyPrint.hpp
+++ b/src/main/cpp/Balau/Util/PrettyPrint.hpp
@@ -210,7 +210,7 @@ struct PrettyPrint final {
 			// Return single line.
 
 			for (size_t m = 0; m < byteCount; m++) {
-				builder << std::right << std::setw(2) << std::hex << std::setfill('0') << (int) ptr[m];
+				builder << std::right << std::setw(2) << std::hex << std::setfill('0') << (unsigned int) (unsigned char) ptr[m];
 			}
 
 			return builder.str();
@@ -227,7 +227,7 @@ struct PrettyPrint final {
 						return builder.str();
 					}
 
-					builder << std::right << std::setw(2) << std::hex << std::setfill('0') << (int) ptr[index++];
+					builder << std::right << std::setw(2) << std::hex << std::setfill('0') << (unsigned int) (unsigned char) ptr[index++];
 				}
 
 				builder << " ";
@@ -238,7 +238,7 @@ struct PrettyPrint final {
 					return builder.str();
 				}
 
-				builder << std::right << std::setw(2) << std::hex << std::setfill('0') << (int) ptr[index++];
+				builder << std::right << std::setw(2) << std::hex << std::setfill('0') << (unsigned int) (unsigned char) ptr[index++];
 			}
 
 			builder << "\n";
-- 
2.43.0


From 02d887caaa49b8d60def494095fb8b4309c65946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:11 +0000
Subject: [PATCH 110/143] fix: printing bytes in hexadecimal without groups
 never returned

This includes the default arguments. The number of groups of size zero that
fit on a line is unbounded.
---
 src/main/cpp/Balau/Util/PrettyPrint.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Util/PrettyPrint.hpp b/src/main/cpp/Balau/Util/PrettyPrint.hpp
index 68328cd..9c91e12 100644
--- a/src/main/cpp/Balau/Util/PrettyPrint.hpp
+++ b/src/main/cpp/Balau/Util/PrettyPrint.hpp
@@ -204,6 +204,12 @@ struct PrettyPrint final {
 	///
 	static std::string printHexBytes(const char * ptr, size_t byteCount, size_t lineLength = 0, size_t groupSize = 0) {
 		std::ostringstream builder;
+
+		if (groupSize == 0 && lineLength != 0) {
+			// No groups: each line consists of as many bytes as fit.
+			groupSize = lineLength < 2 ? 1 : lineLength / 2;
+		}
+
 		const size_t groupsPerLine = calculateGroupsPerLine(lineLength, groupSize);
 
 		if (groupsPerLine == 0) {
@@ -258,7 +264,7 @@ struct PrettyPrint final {
 	private: static size_t calculateGroupsPerLine(size_t lineLength, size_t groupSize) {
 		const size_t groupCharCount = groupSize * 2;
 
-		if (groupCharCount > lineLength) {
+		if (groupSize == 0 || groupCharCount > lineLength) {
 			return 0;
 		}
 
-- 
2.43.0


From 82d7076d598ba4a5aed766e346e414ce8efc8d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:11 +0000
Subject: [PATCH 111/143] fix: zero and negative values were printed with the
 atto prefix

The prefix was calculated from the logarithm of the value, which is -inf for
zero and NaN for negative values.
---
 src/main/cpp/Balau/Util/PrettyPrint.hpp | 28 +++++++++++--------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/src/main/cpp/Balau/Util/PrettyPrint.hpp b/src/main/cpp/Balau/Util/PrettyPrint.hpp
index 9c91e12..78f6d2a 100644
--- a/src/main/cpp/Balau/Util/PrettyPrint.hpp
+++ b/src/main/cpp/Balau/Util/PrettyPrint.hpp
@@ -71,14 +71,7 @@ struct PrettyPrint final {
 	/// @param decimalPlaces the number of decimal places to print
 	///
 	template <typename T> static std::string metricPrefix(const T & value, size_t decimalPlaces) {
-		auto prefix = (int) std::floor(std::log10(value) / std::log10(1000.0));
-
-		if (prefix > 6) {
-			prefix = 6;
-		} else if (prefix < -6) {
-			prefix = -6;
-		}
-
+		const int prefix = prefixIndex((long double) value, 1000.0);
 		const char * prefixChar = prefixes()[prefix + 6];
 		const long double multiplier = std::pow(1000.0, (long double) -prefix);
 		return fixed((long double) value * multiplier, decimalPlaces) + prefixChar;
@@ -94,14 +87,7 @@ struct PrettyPrint final {
 	/// @param decimalPlaces the number of decimal places to print
 	///
 	template <typename T> static std::string binaryPrefix(const T & value, const size_t decimalPlaces) {
-		auto prefix = (int) std::floor(std::log10((long double) value) / std::log10((long double) 1024.0));
-
-		if (prefix > 6) {
-			prefix = 6;
-		} else if (prefix < -6) {
-			prefix = -6;
-		}
-
+		const int prefix = prefixIndex((long double) value, 1024.0);
 		const char * prefixChar = prefixes()[prefix + 6];
 		const long double multiplier = std::pow(1024.0, (long double) -prefix);
 		return fixed((long double) value * multiplier, decimalPlaces) + prefixChar;
@@ -281,6 +267,16 @@ struct PrettyPrint final {
 		}
 	}
 
+	private: static int prefixIndex(long double value, long double base) {
+		// Zero and non-finite values do not have a prefix.
+		if (value == 0.0 || !std::isfinite(value)) {
+			return 0;
+		}
+
+		const long double prefix = std::floor(std::log10(std::fabs(value)) / std::log10(base));
+		return prefix > 6 ? 6 : prefix < -6 ? -6 : (int) prefix;
+	}
+
 	private: static const char ** prefixes() {
 		static const char * PREFIXES[] = {
 			// atto    a    0.000000000000000001    10^−18
-- 
2.43.0


From c77363ecb09fa89ddbb451c7d80b4339d2b50aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:11 +0000
Subject: [PATCH 112/143] fix: negative durations and rounded up fractions were
 printed wrongly

The components of a negative duration were each printed with a sign, and a
fraction that rounds up to one second was dropped.
---
 src/main/cpp/Balau/Util/PrettyPrint.hpp | 66 +++++++++++--------------
 1 file changed, 30 insertions(+), 36 deletions(-)

diff --git a/src/main/cpp/Balau/Util/PrettyPrint.hpp b/src/main/cpp/Balau/Util/PrettyPrint.hpp
index 78f6d2a..e8f56cc 100644
--- a/src/main/cpp/Balau/Util/PrettyPrint.hpp
+++ b/src/main/cpp/Balau/Util/PrettyPrint.hpp
@@ -108,8 +108,6 @@ struct PrettyPrint final {
 	///
 	template <typename Rep, typename Period> static
 	std::string duration(std::chrono::duration<Rep, Period> d, const size_t decimalPlaces = 0) {
-		using Days = std::chrono::duration<int, std::ratio<86400>>;
-
 		long double totalSeconds = (long double) d.count() / (long double) Period::den * (long double) Period::num;
 
 		std::ostringstream builder;
@@ -119,49 +117,45 @@ struct PrettyPrint final {
 			totalSeconds = -totalSeconds;
 		}
 
-		const long double fraction = totalSeconds - (long double) (unsigned long long) totalSeconds;
-
 		if (totalSeconds == 0.0) {
 			return "0s";
 		} else if (totalSeconds < 60.0) {
 			builder << metricPrefix(totalSeconds, decimalPlaces) <<  "s";
 			return builder.str();
-		} else if (totalSeconds < 60.0 * 60.0) { // print minutes::seconds.fraction
-			builder.fill('0');
-			auto minutes = std::chrono::duration_cast<std::chrono::minutes>(d);
-			d -= minutes;
-			auto seconds = std::chrono::duration_cast<std::chrono::seconds>(d);
-			builder << std::setw(2) << minutes.count() << "m"
-			        << std::setw(2) << seconds.count();
-		} else if (totalSeconds < 60.0 * 60.0 * 24.0) { // print hours::minutes::seconds.fraction
-			builder.fill('0');
-			auto hours = std::chrono::duration_cast<std::chrono::hours>(d);
-			d -= hours;
-			auto minutes = std::chrono::duration_cast<std::chrono::minutes>(d);
-			d -= minutes;
-			auto seconds = std::chrono::duration_cast<std::chrono::seconds>(d);
-			builder << std::setw(2) <<   hours.count() << "h"
-			        << std::setw(2) << minutes.count() << "m"
-			        << std::setw(2) << seconds.count();
-		} else { // print days::hours::minutes::seconds.fraction
-			builder.fill('0');
-			auto days = std::chrono::duration_cast<Days>(d);
-			d -= days;
-			auto hours = std::chrono::duration_cast<std::chrono::hours>(d);
-			d -= hours;
-			auto minutes = std::chrono::duration_cast<std::chrono::minutes>(d);
-			d -= minutes;
-			auto seconds = std::chrono::duration_cast<std::chrono::seconds>(d);
-			builder << std::setw(2) <<    days.count() << "d"
-			        << std::setw(2) <<   hours.count() << "h"
-			        << std::setw(2) << minutes.count() << "m"
-			        << std::setw(2) << seconds.count();
 		}
 
-		if (decimalPlaces != 0 && fraction != 0) {
-			builder << fixed(fraction, decimalPlaces).substr(1);
+		auto wholeSeconds = (unsigned long long) totalSeconds;
+		std::string fraction;
+
+		if (decimalPlaces != 0 && totalSeconds != (long double) wholeSeconds) {
+			// Rounding the fraction can carry into the seconds.
+			fraction = fixed(totalSeconds - (long double) wholeSeconds, decimalPlaces);
+			wholeSeconds += fraction[0] == '1' ? 1 : 0;
+			fraction = fraction.substr(1);
+		}
+
+		const auto days = wholeSeconds / 86400;
+		const auto hours = wholeSeconds / 3600 % 24;
+		const auto minutes = wholeSeconds / 60 % 60;
+		const auto seconds = wholeSeconds % 60;
+
+		builder.fill('0');
+
+		if (wholeSeconds < 60 * 60) { // print minutes::seconds.fraction
+			builder << std::setw(2) << minutes << "m"
+			        << std::setw(2) << seconds;
+		} else if (wholeSeconds < 60 * 60 * 24) { // print hours::minutes::seconds.fraction
+			builder << std::setw(2) << hours << "h"
+			        << std::setw(2) << minutes << "m"
+			        << std::setw(2) << seconds;
+		} else { // print days::hours::minutes::seconds.fraction
+			builder << std::setw(2) << days << "d"
+			        << std::setw(2) << hours << "h"
+			        << std::setw(2) << minutes << "m"
+			        << std::setw(2) << seconds;
 		}
 
+		builder << fraction;
 		builder << "s";
 
 		return builder.str();
-- 
2.43.0


From f055df720ebc6816f1f63813af2b80ffe1932d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:53 +0000
Subject: [PATCH 113/143] fix: MovableOnScopeExit could not be used

The container of the function was abstract, and clearing it required a
lambda to be assigned to a different lambda. Clearing or executing a moved
from instance dereferenced a null pointer.
---
 src/main/cpp/Balau/Type/MovableOnScopeExit.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/main/cpp/Balau/Type/MovableOnScopeExit.hpp b/src/main/cpp/Balau/Type/MovableOnScopeExit.hpp
index a7d8f85..c8a3d6e 100644
--- a/src/main/cpp/Balau/Type/MovableOnScopeExit.hpp
+++ b/src/main/cpp/Balau/Type/MovableOnScopeExit.hpp
@@ -60,14 +60,18 @@ class MovableOnScopeExit final {
 	/// Set to the function to NOP (cancels scheduled execution).
 	///
 	public: void clear() {
-		exiter->clear();
+		if (exiter) {
+			exiter->clear();
+		}
 	}
 
 	///
 	/// Execute the function now and then clear it.
 	///
 	public: void executeNow() {
-		exiter->executeNow();
+		if (exiter) {
+			exiter->executeNow();
+		}
 	}
 
 	////////////////////////// Private implementation /////////////////////////
@@ -78,7 +82,6 @@ class MovableOnScopeExit final {
 	private: struct ContainerBase {
 		virtual ~ContainerBase() = default;
 		public: virtual void clear() = 0;
-		public: virtual void reset(std::function<void ()> function_) = 0;
 		public: virtual void executeNow() = 0;
 	};
 
@@ -102,7 +105,7 @@ class MovableOnScopeExit final {
 		}
 
 		friend class MovableOnScopeExit;
-		private: FunctionT function;
+		private: std::function<void ()> function;
 	};
 
 	private: std::unique_ptr<ContainerBase> exiter;
-- 
2.43.0


From b262dd3545e39267bd40fd0302737817d9b0236f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:53 +0000
Subject: [PATCH 114/143] fix: uniform real random numbers were generated
 outside of their range

For upper limits that are not positive, the exclusive limit passed to the
distribution was below the upper limit, which is invalid or out of range when
lower equals upper. Rounding could also yield the exclusive limit itself.
---
 src/main/cpp/Balau/Util/Impl/RandomImpl.hpp |  4 ++--
 src/main/cpp/Balau/Util/Random.hpp          | 16 +++++++++++++---
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/main/cpp/Balau/Util/Impl/RandomImpl.hpp b/src/main/cpp/Balau/Util/Impl/RandomImpl.hpp
index d9fc5ef..ff6f001 100644
--- a/src/main/cpp/Balau/Util/Impl/RandomImpl.hpp
+++ b/src/main/cpp/Balau/Util/Impl/RandomImpl.hpp
@@ -25,11 +25,11 @@
 namespace Balau::Util::Impl {
 
 inline double inclusivise(double upper) {
-	return std::nextafter(upper, upper > 0.0 ? upper + 1.0 : upper - 1.0);
+	return std::nextafter(upper, std::numeric_limits<double>::max());
 }
 
 inline float inclusivise(float upper) {
-	return std::nextafter(upper, upper > 0.0f ? upper + 1.0f : upper - 1.0f);
+	return std::nextafter(upper, std::numeric_limits<float>::max());
 }
 
 template <typename IntegerT> inline IntegerT inclusivise(IntegerT upper) {
diff --git a/src/main/cpp/Balau/Util/Random.hpp b/src/main/cpp/Balau/Util/Random.hpp
index b9c5142..2f87487 100644
--- a/src/main/cpp/Balau/Util/Random.hpp
+++ b/src/main/cpp/Balau/Util/Random.hpp
@@ -42,20 +42,29 @@ template <typename T, typename D> class RandomNumberGenerator final {
 	///
 	public: RandomNumberGenerator(T lower, T upper)
 		: generator(std::random_device()())
-		, distribution(D(lower, Impl::inclusivise(upper))) {}
+		, distribution(D(lower, Impl::inclusivise(upper)))
+		, upperLimit(upper) {}
 
 	///
 	/// Create an explicitly seeded random number generator with a range of [lower, upper].
 	///
 	public: RandomNumberGenerator(T lower, T upper, unsigned int seed)
 		: generator(seed)
-		, distribution(D(lower, Impl::inclusivise(upper))) {}
+		, distribution(D(lower, Impl::inclusivise(upper)))
+		, upperLimit(upper) {}
 
 	///
 	/// Get the next random number.
 	///
 	public: T operator () () {
-		return distribution(generator);
+		const T number = distribution(generator);
+
+		if constexpr (std::is_same_v<D, std::uniform_real_distribution<T>>) {
+			// The distribution is [lower, next after upper) before rounding.
+			return number > upperLimit ? upperLimit : number;
+		}
+
+		return number;
 	}
 
 	////////////////////////// Private implementation /////////////////////////
@@ -65,6 +74,7 @@ template <typename T, typename D> class RandomNumberGenerator final {
 
 	private: std::mt19937 generator;
 	private: D distribution;
+	private: const T upperLimit;
 };
 
 /////////////////////// Uniform distribution generators ///////////////////////
-- 
2.43.0


From c378e35e51a21f8ea2746cef98766f176bbe1743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:53 +0000
Subject: [PATCH 115/143] fix: makeUniqueV could not be instantiated

---
 src/main/cpp/Balau/Util/Memory.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Util/Memory.hpp b/src/main/cpp/Balau/Util/Memory.hpp
index 65c07b5..a32d11b 100644
--- a/src/main/cpp/Balau/Util/Memory.hpp
+++ b/src/main/cpp/Balau/Util/Memory.hpp
@@ -111,8 +111,8 @@ struct Memory final {
 	/// @tparam R the return type of which the vector will hold shared pointers
 	///
 	template <typename T, typename R = T, typename F>
-	static std::vector<std::shared_ptr<R>> makeUniqueV(F ) {
-		return std::vector<std::shared_ptr<R>>();
+	static std::vector<std::unique_ptr<R>> makeUniqueV(F ) {
+		return std::vector<std::unique_ptr<R>>();
 	}
 
 	////////////////// Make shared - scalar transform version /////////////////
-- 
2.43.0


From 45ef4ad1066bbf579673b4d2348e31dfa06b92bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:53 +0000
Subject: [PATCH 116/143] fix: moving a vector into another one copied the
 elements

---
 src/main/cpp/Balau/Util/Vectors.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Util/Vectors.hpp b/src/main/cpp/Balau/Util/Vectors.hpp
index 2b7506d..7516cf6 100644
--- a/src/main/cpp/Balau/Util/Vectors.hpp
+++ b/src/main/cpp/Balau/Util/Vectors.hpp
@@ -118,10 +118,17 @@ struct Vectors final {
 	///
 	/// Moves the source vector into the destination vector.
 	///
-	template <typename T> static void move(std::vector<T> & dst, const std::vector<T> & src) {
+	template <typename T> static void move(std::vector<T> & dst, std::vector<T> & src) {
 		std::move(src.begin(), src.end(), std::back_inserter(dst));
 	}
 
+	///
+	/// Moves the source vector into the destination vector.
+	///
+	template <typename T> static void move(std::vector<T> & dst, std::vector<T> && src) {
+		move(dst, src);
+	}
+
 	///////////////////////////////////////////////////////////////////////////
 
 	///
-- 
2.43.0


From 8f8fac911a426a7e79cb45f7b04301f8227ad40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:53 +0000
Subject: [PATCH 117/143] fix: consuming an empty stream put the output stream
 in the failed state

---
 src/main/cpp/Balau/Util/Streams.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Util/Streams.hpp b/src/main/cpp/Balau/Util/Streams.hpp
index 71c5c67..10a554e 100644
--- a/src/main/cpp/Balau/Util/Streams.hpp
+++ b/src/main/cpp/Balau/Util/Streams.hpp
@@ -92,7 +92,10 @@ class Streams final {
 	/// output stream.
 	///
 	public: static void consume(std::ostream & dst, std::istream & src) {
-		dst << src.rdbuf();
+		// Inserting no characters would put the output stream in the failed state.
+		if (src.rdbuf()->sgetc() != std::istream::traits_type::eof()) {
+			dst << src.rdbuf();
+		}
 	}
 
 	///////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 9ee689dc5b3b0e5c3c6a60d4b8cb5c0f1f0c3b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:53 +0000
Subject: [PATCH 118/143] fix: a container of strings could not be searched for
 a string

The string was taken as a container of values to look for.
---
 src/main/cpp/Balau/Util/Containers.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/main/cpp/Balau/Util/Containers.hpp b/src/main/cpp/Balau/Util/Containers.hpp
index ab056fe..130d0c6 100644
--- a/src/main/cpp/Balau/Util/Containers.hpp
+++ b/src/main/cpp/Balau/Util/Containers.hpp
@@ -90,13 +90,18 @@ struct Containers final {
 	///
 	template <template <typename ...> class C, typename ... T, template <typename ...> class V, typename ... U>
 	static bool contains(const C<T ...> & container, const V<U ...> & values) {
-		for (const auto & value : values) {
-			if (std::find(container.begin(), container.end(), value) != container.end()) {
-				return true;
+		if constexpr (std::is_same_v<typename C<T ...>::value_type, V<U ...>>) {
+			// The value is itself a container (or a string).
+			return std::find(container.begin(), container.end(), values) != container.end();
+		} else {
+			for (const auto & value : values) {
+				if (std::find(container.begin(), container.end(), value) != container.end()) {
+					return true;
+				}
 			}
-		}
 
-		return false;
+			return false;
+		}
 	}
 
 	///////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 6fc0a0f8e699be07913eff6752a86c145150b209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:55 +0000
Subject: [PATCH 119/143] fix: obtaining the home directory never returned if
 HOME is not set

The loop ended when the buffer was too small, and continued when the entry of
the user had been found. The error code of getpwuid_r is its return value.
---
 src/main/cpp/Balau/Util/User.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/main/cpp/Balau/Util/User.hpp b/src/main/cpp/Balau/Util/User.hpp
index cf699c1..b86808e 100644
--- a/src/main/cpp/Balau/Util/User.hpp
+++ b/src/main/cpp/Balau/Util/User.hpp
@@ -98,6 +98,7 @@ struct User final {
 			bool repeat = false;
 
 			do {
+				repeat = false;
 				s = getpwuid_r(getuid(), &pwd, buffer.data(), bufferSize, &result);
 
 				if (result == nullptr) {
@@ -106,7 +107,7 @@ struct User final {
 							  Exception::UserNotFoundException
 							, "Failed to locate the user home directory: user entry not found in passwd."
 						);
-					} else if (errno == ERANGE) {
+					} else if (s == ERANGE) {
 						// Give up at 1MB buffer size.
 						if (bufferSize >= 1048576) {
 							ThrowBalauException(
@@ -121,17 +122,17 @@ struct User final {
 					} else {
 						ThrowBalauException(
 							  Exception::UserNotFoundException
-							, "Failed to locate the user home directory: getpwnam_r raised an error, errno = " +
-							  ::toString(errno)
+							, "Failed to locate the user home directory: getpwuid_r raised an error, errno = " +
+							  ::toString(s)
 						);
 					}
 				}
-			} while (!repeat);
+			} while (repeat);
 
 			if (result == nullptr || result->pw_dir == nullptr) {
 				ThrowBalauException(
 					  Exception::UserNotFoundException
-					, ::toString("Failed to locate the user home directory: getpwnam_r raised an error, errno = ", errno)
+					, ::toString("Failed to locate the user home directory: getpwuid_r raised an error, errno = ", s)
 				);
 			}
 
-- 
2.43.0


From 586da6f8319cc35e310bd3bbef579d8fef2e9c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:55 +0000
Subject: [PATCH 120/143] fix: the user data directory included blanks around
 XDG_DATA_HOME

The other environment variables are trimmed.
---
 src/main/cpp/Balau/Util/Impl/AppImpl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Util/Impl/AppImpl.hpp b/src/main/cpp/Balau/Util/Impl/AppImpl.hpp
index ccb93f7..5640ad1 100644
--- a/src/main/cpp/Balau/Util/Impl/AppImpl.hpp
+++ b/src/main/cpp/Balau/Util/Impl/AppImpl.hpp
@@ -47,7 +47,7 @@ struct AppImpl final {
 			const char * xdg = std::getenv("XDG_DATA_HOME");
 
 			if (xdg != nullptr && !Util::Strings::trim(xdg).empty()) {
-				return Resource::File(xdg) / appGroup / appName;
+				return Resource::File(Util::Strings::trim(xdg)) / appGroup / appName;
 			}
 
 			auto home = User::getHomeDirectory();
-- 
2.43.0


From b8c058df63907b79d0846200515ee0d1d77ed657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:55 +0000
Subject: [PATCH 121/143] fix: the runtime data directory was created with
 access for other users

The access mode is documented as being 0700.
---
 src/main/cpp/Balau/Util/Impl/AppImpl.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Util/Impl/AppImpl.hpp b/src/main/cpp/Balau/Util/Impl/AppImpl.hpp
index 5640ad1..aaee859 100644
--- a/src/main/cpp/Balau/Util/Impl/AppImpl.hpp
+++ b/src/main/cpp/Balau/Util/Impl/AppImpl.hpp
@@ -148,7 +148,11 @@ struct AppImpl final {
 				}
 			}
 
-			dir.createDirectories();
+			if (dir.createDirectories()) {
+				// The access must be restricted to the user.
+				boost::filesystem::permissions(dir.getEntry().path(), boost::filesystem::owner_all);
+			}
+
 			return dir;
 		#elif BOOST_OS_WINDOWS
 			#error "The Windows platform is not yet implemented."
-- 
2.43.0


From 7fb0ff2d32b8268c71551ea101a24f0c07d54be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:14 +0000
Subject: [PATCH 122/143] fix: converting an empty string to a vector passed a
 null pointer to memcpy

---
 src/main/cpp/Balau/Util/Vectors.hpp | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/main/cpp/Balau/Util/Vectors.hpp b/src/main/cpp/Balau/Util/Vectors.hpp
index 7516cf6..61d5eff 100644
--- a/src/main/cpp/Balau/Util/Vectors.hpp
+++ b/src/main/cpp/Balau/Util/Vectors.hpp
@@ -147,20 +147,14 @@ struct Vectors final {
 	/// Convert the supplied UTF-8 string to a char vector.
 	///
 	static std::vector<char> toCharVector(const std::string & str) {
-		std::vector<char> ret;
-		ret.resize(str.length());
-		std::memcpy(ret.data(), str.c_str(), str.length());
-		return ret;
+		return std::vector<char>(str.begin(), str.end());
 	}
 
 	///
 	/// Convert the supplied UTF-32 string to a char32_t vector.
 	///
 	static std::vector<char32_t> toCharVector(const std::u32string & str) {
-		std::vector<char32_t> ret;
-		ret.resize(str.length());
-		std::memcpy(ret.data(), str.c_str(), str.length() * sizeof(char32_t));
-		return ret;
+		return std::vector<char32_t>(str.begin(), str.end());
 	}
 
 	///
-- 
2.43.0


From 5afc6e048840e6e00ebc07e3dee703eec89e2f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:57 +0000
Subject: [PATCH 123/143] fix: build the HTTP server and clients with recent
 versions of Boost

---
 .../Balau/Network/Http/Server/HttpSession.cpp   |  2 +-
 .../Server/HttpWebApps/CannedHttpWebApp.cpp     |  2 +-
 .../cpp/Balau/Network/Http/Server/WsSession.hpp |  2 +-
 .../Boost/Beast/Http/BasicFileBody.hpp          | 10 +++++++++-
 src/main/cpp/Balau/Type/ToStringA.hpp           | 17 +++++++++++++++++
 src/main/cpp/Balau/Type/ToStringS.hpp           | 16 ++++++++++++++++
 6 files changed, 45 insertions(+), 4 deletions(-)

diff --git a/src/main/cpp/Balau/Network/Http/Server/HttpSession.cpp b/src/main/cpp/Balau/Network/Http/Server/HttpSession.cpp
index f6a8654..91921ff 100644
--- a/src/main/cpp/Balau/Network/Http/Server/HttpSession.cpp
+++ b/src/main/cpp/Balau/Network/Http/Server/HttpSession.cpp
@@ -30,7 +30,7 @@ HttpSession::HttpSession(Impl::HttpSessions & httpSessions_,
 	: httpSessions(httpSessions_)
 	, clientSessions(clientSessions_)
 	, serverConfiguration(std::move(serverConfiguration_))
-	, strand(socket_.get_executor())
+	, strand(static_cast<boost::asio::io_context &>(socket_.get_executor().context()).get_executor())
 	, socket(std::move(socket_)) {
 }
 
diff --git a/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/CannedHttpWebApp.cpp b/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/CannedHttpWebApp.cpp
index f220e3e..ed34048 100644
--- a/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/CannedHttpWebApp.cpp
+++ b/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/CannedHttpWebApp.cpp
@@ -44,7 +44,7 @@ void CannedHttpWebApp::handleHeadRequest(HttpSession & session,
 	Response <StringBody> response {Status::ok, request.version()};
 	response.set(Field::server, session.configuration().serverId);
 	response.set(Field::content_type, mimeType);
-	response.set(Field::content_length, getResponseBody.size()); // TODO This is causing a deadlock.
+	response.set(Field::content_length, ::toString(getResponseBody.size())); // TODO This is causing a deadlock.
 	response.keep_alive(request.keep_alive());
 	session.sendResponse(std::move(response));
 }
diff --git a/src/main/cpp/Balau/Network/Http/Server/WsSession.hpp b/src/main/cpp/Balau/Network/Http/Server/WsSession.hpp
index f0b3513..7e30d1b 100644
--- a/src/main/cpp/Balau/Network/Http/Server/WsSession.hpp
+++ b/src/main/cpp/Balau/Network/Http/Server/WsSession.hpp
@@ -56,7 +56,7 @@ class WsSession final : public std::enable_shared_from_this<WsSession> {
 	                  TCP::socket && socket_,
 	                  std::string path_)
 		: serverConfiguration(std::move(serverConfiguration_))
-		, strand(socket_.get_executor())
+		, strand(static_cast<boost::asio::io_context &>(socket_.get_executor().context()).get_executor())
 		, socket(std::move(socket_))
 		, path(std::move(path_)) {}
 
diff --git a/src/main/cpp/Balau/ThirdParty/Boost/Beast/Http/BasicFileBody.hpp b/src/main/cpp/Balau/ThirdParty/Boost/Beast/Http/BasicFileBody.hpp
index b928189..f6aa5ec 100644
--- a/src/main/cpp/Balau/ThirdParty/Boost/Beast/Http/BasicFileBody.hpp
+++ b/src/main/cpp/Balau/ThirdParty/Boost/Beast/Http/BasicFileBody.hpp
@@ -15,7 +15,15 @@
 #include <boost/beast/core/detail/config.hpp>
 #include <boost/beast/core/error.hpp>
 #include <boost/beast/core/file_base.hpp>
-#include <boost/beast/core/type_traits.hpp>
+#include <boost/version.hpp>
+
+#if BOOST_VERSION < 107000
+	#include <boost/beast/core/type_traits.hpp>
+#else
+	#include <boost/beast/core/buffer_traits.hpp>
+	#include <boost/beast/core/stream_traits.hpp>
+#endif
+
 #include <boost/beast/http/message.hpp>
 #include <boost/assert.hpp>
 #include <boost/optional.hpp>
diff --git a/src/main/cpp/Balau/Type/ToStringA.hpp b/src/main/cpp/Balau/Type/ToStringA.hpp
index 268640d..86eec6b 100644
--- a/src/main/cpp/Balau/Type/ToStringA.hpp
+++ b/src/main/cpp/Balau/Type/ToStringA.hpp
@@ -32,6 +32,11 @@
 #include <boost/lexical_cast.hpp>
 #include <boost/locale.hpp>
 #include <boost/utility/string_view.hpp>
+#include <boost/version.hpp>
+
+#if BOOST_VERSION >= 108100
+	#include <boost/core/detail/string_view.hpp>
+#endif
 
 #include <forward_list>
 #include <list>
@@ -128,6 +133,18 @@ inline Balau::U8String<AllocatorT> toString(const boost::string_view & value) {
 
 #endif
 
+#if BOOST_VERSION >= 108100
+
+///
+/// Creates a string from the string view used by recent versions of Boost Beast.
+///
+template <typename AllocatorT>
+inline Balau::U8String<AllocatorT> toString(const boost::core::string_view & value) {
+	return Balau::U8String<AllocatorT>(value.data(), value.length());
+}
+
+#endif
+
 ///
 /// Convert the supplied UTF-16 string to a UTF-8 string.
 ///
diff --git a/src/main/cpp/Balau/Type/ToStringS.hpp b/src/main/cpp/Balau/Type/ToStringS.hpp
index d41f0d4..7fbabb3 100644
--- a/src/main/cpp/Balau/Type/ToStringS.hpp
+++ b/src/main/cpp/Balau/Type/ToStringS.hpp
@@ -30,6 +30,11 @@
 
 #include <boost/lexical_cast.hpp>
 #include <boost/locale.hpp>
+#include <boost/version.hpp>
+
+#if BOOST_VERSION >= 108100
+	#include <boost/core/detail/string_view.hpp>
+#endif
 
 #include <complex>
 #include <forward_list>
@@ -76,6 +81,17 @@ inline std::string toString(const boost::string_view & value) {
 
 #endif
 
+#if BOOST_VERSION >= 108100
+
+///
+/// Creates a string from the string view used by recent versions of Boost Beast.
+///
+inline std::string toString(const boost::core::string_view & value) {
+	return std::string(value.data(), value.length());
+}
+
+#endif
+
 ///
 /// Convert the supplied UTF-16 string to a UTF-8 string.
 ///
-- 
2.43.0


From 60296f2ef72bfa199ac75366bf95811f8b34b962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:57 +0000
Subject: [PATCH 124/143] fix: set the client session before a bad request
 response is sent

---
 src/main/cpp/Balau/Network/Http/Server/HttpSession.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/main/cpp/Balau/Network/Http/Server/HttpSession.cpp b/src/main/cpp/Balau/Network/Http/Server/HttpSession.cpp
index 91921ff..b4f3de0 100644
--- a/src/main/cpp/Balau/Network/Http/Server/HttpSession.cpp
+++ b/src/main/cpp/Balau/Network/Http/Server/HttpSession.cpp
@@ -60,14 +60,15 @@ void HttpSession::close() {
 void HttpSession::onRead(boost::system::error_code errorCode, std::size_t bytesTransferred) {
 	boost::ignore_unused(bytesTransferred);
 
-	parseCookies();
+	if (!errorCode) {
+		parseCookies();
+		setClientSession(); // Required by all responses, including bad request responses.
+	}
 
 	if (!validateRequest(errorCode, request)) {
 		return;
 	}
 
-	setClientSession();
-
 	// Check for WebSocket upgrade.
 	if (WS::is_upgrade(request)) {
 		// ASIO states that following the socket move, the moved-from socket is in the same
-- 
2.43.0


From 07bac711e54400b2731d3e9f36fd6274e6eee648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:57 +0000
Subject: [PATCH 125/143] fix: close the HTTP connection when the request can
 not be read

---
 src/main/cpp/Balau/Network/Http/Server/HttpSession.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main/cpp/Balau/Network/Http/Server/HttpSession.cpp b/src/main/cpp/Balau/Network/Http/Server/HttpSession.cpp
index b4f3de0..7a32e06 100644
--- a/src/main/cpp/Balau/Network/Http/Server/HttpSession.cpp
+++ b/src/main/cpp/Balau/Network/Http/Server/HttpSession.cpp
@@ -91,6 +91,7 @@ bool HttpSession::validateRequest(boost::system::error_code errorCode, const Str
 		return false;
 	} else if (errorCode) {
 		BalauBalauLogWarn(serverConfiguration->logger, "HttpSession request error: {}", errorCode);
+		doClose();
 		return false;
 	}
 
-- 
2.43.0


From 5a07bfd39417d30f6d7d2eaba95027673d3d5944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:57 +0000
Subject: [PATCH 126/143] fix: keep the HTTP session alive until it has been
 closed

---
 src/main/cpp/Balau/Network/Http/Server/HttpSession.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Network/Http/Server/HttpSession.cpp b/src/main/cpp/Balau/Network/Http/Server/HttpSession.cpp
index 7a32e06..0c50486 100644
--- a/src/main/cpp/Balau/Network/Http/Server/HttpSession.cpp
+++ b/src/main/cpp/Balau/Network/Http/Server/HttpSession.cpp
@@ -54,7 +54,7 @@ void HttpSession::doRead() {
 }
 
 void HttpSession::close() {
-	strand.post(std::bind(&HttpSession::doClose, this), allocator);
+	strand.post(std::bind(&HttpSession::doClose, shared_from_this()), allocator);
 }
 
 void HttpSession::onRead(boost::system::error_code errorCode, std::size_t bytesTransferred) {
-- 
2.43.0


From 70ab69b1a0ff26d95858bdb8e8e5a807e4bc52b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:19 +0000
Subject: [PATCH 127/143] fix: responses to HEAD requests do not have a body

---
 .../Balau/Network/Http/Server/HttpSession.cpp    |  7 ++++++-
 .../Balau/Network/Http/Server/HttpSession.hpp    | 16 ++++++++++------
 .../Server/HttpWebApps/RedirectingHttpWebApp.cpp |  6 +++++-
 3 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/main/cpp/Balau/Network/Http/Server/HttpSession.cpp b/src/main/cpp/Balau/Network/Http/Server/HttpSession.cpp
index 0c50486..31fd4e6 100644
--- a/src/main/cpp/Balau/Network/Http/Server/HttpSession.cpp
+++ b/src/main/cpp/Balau/Network/Http/Server/HttpSession.cpp
@@ -98,7 +98,12 @@ bool HttpSession::validateRequest(boost::system::error_code errorCode, const Str
 	const auto target = request.target();
 
 	if (target.empty() || target[0] != '/' || target.find("..") != boost::string_view::npos) {
-		sendResponse(HttpWebApp::createBadRequestResponse(*this, request, "Illegal path in request."));
+		if (request.method() == Method::head) {
+			sendResponse(HttpWebApp::createBadRequestHeadResponse(*this, request));
+		} else {
+			sendResponse(HttpWebApp::createBadRequestResponse(*this, request, "Illegal path in request."));
+		}
+
 		return false;
 	}
 
diff --git a/src/main/cpp/Balau/Network/Http/Server/HttpSession.hpp b/src/main/cpp/Balau/Network/Http/Server/HttpSession.hpp
index 73675d1..a5c1c45 100644
--- a/src/main/cpp/Balau/Network/Http/Server/HttpSession.hpp
+++ b/src/main/cpp/Balau/Network/Http/Server/HttpSession.hpp
@@ -189,13 +189,17 @@ class HttpSession final : public std::enable_shared_from_this<HttpSession> {
 			}
 		} catch (const std::exception & e) {
 			BalauBalauLogError(serverConfiguration->logger, "Exception thrown during request: {}", e);
-			sendResponse(
-				HttpWebApp::createServerErrorResponse(
-					*this, request, "The server experienced an error during the request. A report has been logged."
-				)
-			);
+			sendServerErrorResponse(request);
 		} catch (...) {
-			BalauBalauLogError(serverConfiguration->logger, "Unknown exception thrown during request: {}");
+			BalauBalauLogError(serverConfiguration->logger, "Unknown exception thrown during request.");
+			sendServerErrorResponse(request);
+		}
+	}
+
+	private: void sendServerErrorResponse(const StringRequest & request) {
+		if (request.method() == Method::head) {
+			sendResponse(HttpWebApp::createServerErrorHeadResponse(*this, request));
+		} else {
 			sendResponse(
 				HttpWebApp::createServerErrorResponse(
 					*this, request, "The server experienced an error during the request. A report has been logged."
diff --git a/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/RedirectingHttpWebApp.cpp b/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/RedirectingHttpWebApp.cpp
index fe1db5d..46a3953 100644
--- a/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/RedirectingHttpWebApp.cpp
+++ b/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/RedirectingHttpWebApp.cpp
@@ -78,7 +78,11 @@ void RedirectingHttpWebApp::handle(HttpSession & session,
 		}
 	}
 
-	session.sendResponse(createNotFoundStringResponse(session, request));
+	if (request.method() == Method::head) {
+		session.sendResponse(createNotFoundHeadResponse(session, request));
+	} else {
+		session.sendResponse(createNotFoundStringResponse(session, request));
+	}
 }
 
 std::vector<RedirectingHttpWebApp::Redirection>
-- 
2.43.0


From a029b4db21836a6f3eaccb5af5afe138d0403fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:19 +0000
Subject: [PATCH 128/143] fix: the default file of a configured file server is
 its index property

---
 .../Network/Http/Server/HttpWebApps/FileServingHttpWebApp.cpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/FileServingHttpWebApp.cpp b/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/FileServingHttpWebApp.cpp
index 92be140..537c0a1 100644
--- a/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/FileServingHttpWebApp.cpp
+++ b/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/FileServingHttpWebApp.cpp
@@ -50,7 +50,7 @@ Resource::File determineDocumentRoot(const EnvironmentProperties & configuration
 
 FileServingHttpWebApp::FileServingHttpWebApp(const EnvironmentProperties & configuration, const BalauLogger & logger)
 	: documentRoot(determineDocumentRoot(configuration))
-	, defaultFile(configuration.getValue<std::string>("root", "index.html")) {}
+	, defaultFile(configuration.getValue<std::string>("index", "index.html")) {}
 
 void FileServingHttpWebApp::handleGetRequest(HttpSession & session,
                                              const StringRequest & request,
-- 
2.43.0


From 0e704bf1338d0e8d9cd5001e11d8e37b698c76d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:50 +0000
Subject: [PATCH 129/143] fix: a single response is sent when a served file can
 not be opened

---
 .../Server/HttpWebApps/FileServingHttpWebApp.cpp | 16 ++++++++++------
 .../Server/HttpWebApps/FileServingHttpWebApp.hpp |  6 +++++-
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/FileServingHttpWebApp.cpp b/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/FileServingHttpWebApp.cpp
index 537c0a1..1ac8705 100644
--- a/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/FileServingHttpWebApp.cpp
+++ b/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/FileServingHttpWebApp.cpp
@@ -63,7 +63,11 @@ void FileServingHttpWebApp::handleGetRequest(HttpSession & session,
 	}
 
 	const auto pathStr = path.toRawString();
-	auto body = getBody(session, request, pathStr);
+	FileBodyValue body;
+
+	if (!openBody(session, request, pathStr, body)) {
+		return; // A response has been sent.
+	}
 
 	Response<FileBody> response{
 		  std::piecewise_construct
@@ -131,10 +135,10 @@ Resource::File FileServingHttpWebApp::resolvePath(HttpSession & session, const S
 	return path;
 }
 
-FileBodyValue FileServingHttpWebApp::getBody(HttpSession & session,
-                                            const StringRequest & request,
-                                            const std::string & pathStr) {
-	FileBodyValue body;
+bool FileServingHttpWebApp::openBody(HttpSession & session,
+                                     const StringRequest & request,
+                                     const std::string & pathStr,
+                                     FileBodyValue & body) {
 	BoostSystemErrorCode errorCode;
 	body.open(pathStr.c_str(), FileMode::scan, errorCode);
 
@@ -144,7 +148,7 @@ FileBodyValue FileServingHttpWebApp::getBody(HttpSession & session,
 		session.sendResponse(createServerErrorResponse(session, request, errorCode.message()));
 	}
 
-	return body;
+	return !errorCode;
 }
 
 } // namespace Balau::Network::Http::HttpWebApps
diff --git a/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/FileServingHttpWebApp.hpp b/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/FileServingHttpWebApp.hpp
index 8721f40..af4e247 100644
--- a/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/FileServingHttpWebApp.hpp
+++ b/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/FileServingHttpWebApp.hpp
@@ -70,7 +70,11 @@ class FileServingHttpWebApp : public HttpWebApp {
 
 	private: Resource::File resolvePath(HttpSession & session, const StringRequest & request);
 
-	private: FileBodyValue getBody(HttpSession & session, const StringRequest & request, const std::string & pathStr);
+	// Returns false if the file could not be opened, in which case a response has been sent.
+	private: bool openBody(HttpSession & session,
+	                       const StringRequest & request,
+	                       const std::string & pathStr,
+	                       FileBodyValue & body);
 
 	private: const Resource::File documentRoot;
 	private: const std::string defaultFile;
-- 
2.43.0


From 708df8c38d66250b3fd3e085ba7fb9842b64d72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:50 +0000
Subject: [PATCH 130/143] fix: the not found response of the failing web app to
 a HEAD request does not have a body

---
 .../Balau/Network/Http/Server/HttpWebApps/FailingHttpWebApp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/FailingHttpWebApp.cpp b/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/FailingHttpWebApp.cpp
index 59bb9ae..6d501f6 100644
--- a/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/FailingHttpWebApp.cpp
+++ b/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/FailingHttpWebApp.cpp
@@ -33,7 +33,7 @@ void FailingHttpWebApp::handleGetRequest(HttpSession & session,
 void FailingHttpWebApp::handleHeadRequest(HttpSession & session,
                                           const StringRequest & request,
                                           std::map<std::string, std::string> & ) {
-	session.sendResponse(createNotFoundStringResponse(session, request));
+	session.sendResponse(createNotFoundHeadResponse(session, request));
 }
 
 void FailingHttpWebApp::handlePostRequest(HttpSession & session,
-- 
2.43.0


From b4c93f36937635760fd378d2c4b0fd9329517a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:50 +0000
Subject: [PATCH 131/143] fix: redirections which do not specify a position
 replaced each other

---
 .../HttpWebApps/RedirectingHttpWebApp.cpp       | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/RedirectingHttpWebApp.cpp b/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/RedirectingHttpWebApp.cpp
index 46a3953..f276c6d 100644
--- a/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/RedirectingHttpWebApp.cpp
+++ b/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/RedirectingHttpWebApp.cpp
@@ -91,7 +91,7 @@ RedirectingHttpWebApp::buildRedirections(const EnvironmentProperties & configura
 		return std::vector<Redirection>();
 	}
 
-	std::map<size_t, Redirection> redirectionMap;
+	std::multimap<size_t, Redirection> redirectionMap;
 	auto matches = configuration.getComposite("matches");
 
 	for (const auto & match : *matches) {
@@ -139,11 +139,14 @@ RedirectingHttpWebApp::buildRedirections(const EnvironmentProperties & configura
 				std::regex matcher(regexStr);
 				std::vector<RedirectingHttpWebApp::PathComponent> pathComponents = buildPathComponents(path);
 
-				redirectionMap[position] = Redirection(
-					matcher, code, pathComponents
-					#ifdef BALAU_DEBUG
-					, regexStr
-					#endif
+				redirectionMap.emplace(
+					  position
+					, Redirection(
+						matcher, code, pathComponents
+						#ifdef BALAU_DEBUG
+						, regexStr
+						#endif
+					)
 				);
 			} catch (const std::regex_error &) {
 				BalauBalauLogError(
@@ -169,7 +172,7 @@ RedirectingHttpWebApp::buildRedirections(const EnvironmentProperties & configura
 	std::for_each(
 		  redirectionMap.begin()
 		, redirectionMap.end()
-		, [&paths] (const std::map<size_t, Redirection>::value_type & pair) { paths.push_back(pair.second); }
+		, [&paths] (const std::multimap<size_t, Redirection>::value_type & pair) { paths.push_back(pair.second); }
 	);
 
 	return paths;
-- 
2.43.0


From 8ce9f0cf92f25abe44c5faccaac84591a43c8e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:50 +0000
Subject: [PATCH 132/143] fix: register the canned and failing web apps

---
 src/main/cpp/Balau/Network/Http/Server/HttpServer.cpp      | 4 ++++
 .../Network/Http/Server/HttpWebApps/FailingHttpWebApp.hpp  | 7 +++++++
 2 files changed, 11 insertions(+)

diff --git a/src/main/cpp/Balau/Network/Http/Server/HttpServer.cpp b/src/main/cpp/Balau/Network/Http/Server/HttpServer.cpp
index 861ebd5..ed14bf1 100644
--- a/src/main/cpp/Balau/Network/Http/Server/HttpServer.cpp
+++ b/src/main/cpp/Balau/Network/Http/Server/HttpServer.cpp
@@ -18,7 +18,9 @@
 //
 
 #include "HttpServer.hpp"
+#include "Balau/Network/Http/Server/HttpWebApps/CannedHttpWebApp.hpp"
 #include "Balau/Network/Http/Server/HttpWebApps/EmailSendingHttpWebApp.hpp"
+#include "Balau/Network/Http/Server/HttpWebApps/FailingHttpWebApp.hpp"
 #include "Balau/Network/Http/Server/HttpWebApps/FileServingHttpWebApp.hpp"
 #include "Balau/Network/Http/Server/HttpWebApps/RedirectingHttpWebApp.hpp"
 #include "HttpWebApps/RoutingHttpWebApp.hpp"
@@ -41,6 +43,8 @@ namespace Balau::Network::Http {
 // The built-in web applications are registered here.
 struct HttpServerRegisterBuiltInWeApps {
 	HttpServerRegisterBuiltInWeApps() {
+		Impl::HttpWebAppFactory::registerHttpWebApp<HttpWebApps::CannedHttpWebApp>("canned");
+		Impl::HttpWebAppFactory::registerHttpWebApp<HttpWebApps::FailingHttpWebApp>("failing");
 		Impl::HttpWebAppFactory::registerHttpWebApp<HttpWebApps::FileServingHttpWebApp>("files");
 		Impl::HttpWebAppFactory::registerHttpWebApp<HttpWebApps::RedirectingHttpWebApp>("redirections");
 		#ifdef BALAU_ENABLE_CURL
diff --git a/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/FailingHttpWebApp.hpp b/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/FailingHttpWebApp.hpp
index 0a12c5f..f9119d6 100644
--- a/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/FailingHttpWebApp.hpp
+++ b/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/FailingHttpWebApp.hpp
@@ -35,6 +35,13 @@ class BalauLogger;
 namespace Network::Http::HttpWebApps {
 
 class FailingHttpWebApp : public HttpWebApp {
+	public: FailingHttpWebApp() = default;
+
+	///
+	/// Constructor called by the HTTP server during construction.
+	///
+	public: FailingHttpWebApp(const EnvironmentProperties & , const BalauLogger & ) {}
+
 	public: void handleGetRequest(HttpSession & session,
 	                              const StringRequest & request,
 	                              std::map<std::string, std::string> & variables) override;
-- 
2.43.0


From 8ebbf2c6747ea804c99ee829be8ae68a580b2092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:50 +0000
Subject: [PATCH 133/143] fix: report a listener failure to the caller of
 startAsync

---
 .../Balau/Network/Http/Server/HttpServer.cpp    | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/src/main/cpp/Balau/Network/Http/Server/HttpServer.cpp b/src/main/cpp/Balau/Network/Http/Server/HttpServer.cpp
index ed14bf1..b324d07 100644
--- a/src/main/cpp/Balau/Network/Http/Server/HttpServer.cpp
+++ b/src/main/cpp/Balau/Network/Http/Server/HttpServer.cpp
@@ -151,21 +151,10 @@ void HttpServer::startAsync() {
 	workers.reserve(workerCount);
 	launched->store(0U);
 
-	// Launch the first worker thread that also launches the listener.
-	workers.emplace_back(
-		[this] {
-			launchListener();
-			workerThreadFunction(0);
-		}
-	);
-
-	// Wait until the listener launching thread has started.
-	while (launched->load() != 1U) {
-		System::Sleep::milliSleep(10);
-	}
+	// Errors are reported to the caller.
+	launchListener();
 
-	// Launch the remaining worker threads.
-	for (size_t workerIndex = 0; workerIndex < workerCount - 1; workerIndex++) {
+	for (size_t workerIndex = 0; workerIndex < workerCount; workerIndex++) {
 		workers.emplace_back([workerIndex, this] { workerThreadFunction(workerIndex); });
 	}
 
-- 
2.43.0


From ec0b2ae831f19d466725ff98038f2aba4601ae61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:03 +0000
Subject: [PATCH 134/143] fix: an HTTP server worker count of zero is one
 worker per CPU core

---
 src/main/cpp/Balau/Network/Http/Server/HttpServer.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/main/cpp/Balau/Network/Http/Server/HttpServer.cpp b/src/main/cpp/Balau/Network/Http/Server/HttpServer.cpp
index b324d07..0161359 100644
--- a/src/main/cpp/Balau/Network/Http/Server/HttpServer.cpp
+++ b/src/main/cpp/Balau/Network/Http/Server/HttpServer.cpp
@@ -55,6 +55,11 @@ struct HttpServerRegisterBuiltInWeApps {
 
 HttpServerRegisterBuiltInWeApps httpServerRegisterBuiltInWeApps; // NOLINT
 
+// A worker count of zero requests one worker thread per CPU core.
+size_t determineWorkerCount(size_t workerCount) {
+	return workerCount != 0 ? workerCount : std::max(1U, std::thread::hardware_concurrency());
+}
+
 //////////////////// Constructors with injector parameter /////////////////////
 
 HttpServer::HttpServer(std::shared_ptr<System::Clock> clock,
@@ -62,9 +67,9 @@ HttpServer::HttpServer(std::shared_ptr<System::Clock> clock,
                        bool registerSignalHandler)
 	: state(createState(std::move(clock), configuration))
 	, threadNamePrefix(configuration->getValue<std::string>("thread.name.prefix", ""))
-	, workerCount((size_t) configuration->getValue<int>("worker.count", 1))
+	, workerCount(determineWorkerCount((size_t) configuration->getValue<int>("worker.count", 1)))
 	, launched(new std::atomic_uint { 0U })
-	, ioContext(new boost::asio::io_context(configuration->getValue<int>("worker.count", 1)))
+	, ioContext(new boost::asio::io_context((int) workerCount))
 	, mutex(new std::mutex)
 	, signalSet(new boost::asio::signal_set(*ioContext)) {
 	if (registerSignalHandler) {
@@ -96,7 +101,7 @@ HttpServer::HttpServer(std::shared_ptr<System::Clock> clock,
 		)
 	)
 	, threadNamePrefix(std::move(threadNamePrefix_))
-	, workerCount(workerCount_)
+	, workerCount(determineWorkerCount(workerCount_))
 	, launched(new std::atomic_uint { 0U })
 	, ioContext(new boost::asio::io_context((int) workerCount))
 	, mutex(new std::mutex)
-- 
2.43.0


From 57b2696cb6c84ab27055438e9cc94c5fcd5448d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:37 +0000
Subject: [PATCH 135/143] fix: stop HTTP servers that were started
 synchronously, and finish their sessions

---
 .../Balau/Network/Http/Server/HttpServer.cpp  | 71 +++++++++++++------
 .../Balau/Network/Http/Server/HttpServer.hpp  |  2 +
 2 files changed, 52 insertions(+), 21 deletions(-)

diff --git a/src/main/cpp/Balau/Network/Http/Server/HttpServer.cpp b/src/main/cpp/Balau/Network/Http/Server/HttpServer.cpp
index 0161359..08f93a8 100644
--- a/src/main/cpp/Balau/Network/Http/Server/HttpServer.cpp
+++ b/src/main/cpp/Balau/Network/Http/Server/HttpServer.cpp
@@ -69,6 +69,7 @@ HttpServer::HttpServer(std::shared_ptr<System::Clock> clock,
 	, threadNamePrefix(configuration->getValue<std::string>("thread.name.prefix", ""))
 	, workerCount(determineWorkerCount((size_t) configuration->getValue<int>("worker.count", 1)))
 	, launched(new std::atomic_uint { 0U })
+	, callingThreadIsWorker(new std::atomic_bool { false })
 	, ioContext(new boost::asio::io_context((int) workerCount))
 	, mutex(new std::mutex)
 	, signalSet(new boost::asio::signal_set(*ioContext)) {
@@ -103,6 +104,7 @@ HttpServer::HttpServer(std::shared_ptr<System::Clock> clock,
 	, threadNamePrefix(std::move(threadNamePrefix_))
 	, workerCount(determineWorkerCount(workerCount_))
 	, launched(new std::atomic_uint { 0U })
+	, callingThreadIsWorker(new std::atomic_bool { false })
 	, ioContext(new boost::asio::io_context((int) workerCount))
 	, mutex(new std::mutex)
 	, signalSet(new boost::asio::signal_set(*ioContext)) {
@@ -145,7 +147,7 @@ HttpServer::~HttpServer() {
 void HttpServer::startAsync() {
 	std::unique_lock<std::mutex> lock(*mutex);
 
-	if (!workers.empty()) {
+	if (listener) {
 		BalauBalauLogWarn(state->logger, "HTTP server {}:{} already running", state->endpoint.address(), state->endpoint.port());
 		return;
 	}
@@ -169,31 +171,35 @@ void HttpServer::startAsync() {
 }
 
 void HttpServer::startSync() {
-	std::unique_lock<std::mutex> lock(*mutex);
+	{
+		std::unique_lock<std::mutex> lock(*mutex);
 
-	if (!workers.empty()) {
-		BalauBalauLogWarn(state->logger, "HTTP server {}:{} already running", state->endpoint.address(), state->endpoint.port());
-		return;
-	}
+		if (listener) {
+			BalauBalauLogWarn(state->logger, "HTTP server {}:{} already running", state->endpoint.address(), state->endpoint.port());
+			return;
+		}
 
-	BalauBalauLogInfo(state->logger, "Starting HTTP server {}:{}", state->endpoint.address(), state->endpoint.port());
+		BalauBalauLogInfo(state->logger, "Starting HTTP server {}:{}", state->endpoint.address(), state->endpoint.port());
 
-	ioContext->restart();
+		ioContext->restart();
 
-	// This thread will be one of the IO context threads.
-	launchListener();
+		// This thread will be one of the IO context threads.
+		launchListener();
 
-	workers.reserve(workerCount - 1);
-	launched->store(0U);
+		workers.reserve(workerCount - 1);
+		launched->store(0U);
+		callingThreadIsWorker->store(true);
 
-	for (size_t workerIndex = 0; workerIndex < workerCount - 1; workerIndex++) {
-		workers.emplace_back([workerIndex, this] { workerThreadFunction(workerIndex); });
+		for (size_t workerIndex = 0; workerIndex < workerCount - 1; workerIndex++) {
+			workers.emplace_back([workerIndex, this] { workerThreadFunction(workerIndex); });
+		}
 	}
 
 	// Last worker is on this thread.
 	const std::string previousThreadName = System::ThreadName::getName();
 
 	workerThreadFunction(workerCount - 1);
+	callingThreadIsWorker->store(false);
 
 	stop(false);
 
@@ -202,13 +208,13 @@ void HttpServer::startSync() {
 
 bool HttpServer::isRunning() {
 	std::lock_guard<std::mutex> lock(*mutex);
-	return !workers.empty();
+	return listener != nullptr;
 }
 
 void HttpServer::stop(bool warn) {
 	std::lock_guard<std::mutex> lock(*mutex);
 
-	if (workers.empty()) {
+	if (!listener) {
 		if (warn) {
 			BalauBalauLogWarn(
 				state->logger, "HTTP server {}:{} already stopped", state->endpoint.address(), state->endpoint.port()
@@ -220,19 +226,42 @@ void HttpServer::stop(bool warn) {
 
 	BalauBalauLogInfo(state->logger, "Stopping HTTP server {}:{}", state->endpoint.address(), state->endpoint.port());
 
-	listener->close();
 	ioContext->stop();
 
-	while (!ioContext->stopped()) {
-		System::Sleep::milliSleep(10);
-	}
-
 	for (auto & worker : workers) {
 		worker.join();
 	}
 
 	workers.clear();
 
+	// Wait for the startSync call, if any.
+	while (callingThreadIsWorker->load()) {
+		System::Sleep::milliSleep(10);
+	}
+
+	// The workers have finished. Close the sockets and run the handlers of the
+	// cancelled operations before the listener and its sessions are destroyed.
+	listener->close();
+	ioContext->restart();
+
+	while (true) {
+		try {
+			ioContext->poll();
+			break;
+		} catch (const std::exception & e) {
+			BalauBalauLogError(
+				  state->logger
+				, "Exception encountered in HTTP server {}:{} during shutdown: {}."
+				, state->endpoint.address()
+				, state->endpoint.port()
+				, e.what()
+			);
+		}
+	}
+
+	ioContext->stop();
+	listener.reset();
+
 	BalauBalauLogInfo(state->logger, "HTTP server {}:{} stopped", state->endpoint.address(), state->endpoint.port());
 }
 
diff --git a/src/main/cpp/Balau/Network/Http/Server/HttpServer.hpp b/src/main/cpp/Balau/Network/Http/Server/HttpServer.hpp
index f43ed83..f3a89e8 100644
--- a/src/main/cpp/Balau/Network/Http/Server/HttpServer.hpp
+++ b/src/main/cpp/Balau/Network/Http/Server/HttpServer.hpp
@@ -245,6 +245,7 @@ class HttpServer {
 		, workerCount(rhs.workerCount)
 		, workers(std::move(rhs.workers))
 		, launched(std::move(rhs.launched))
+		, callingThreadIsWorker(std::move(rhs.callingThreadIsWorker))
 		, listener(std::move(rhs.listener))
 		, ioContext(std::move(rhs.ioContext))
 		, mutex(std::move(rhs.mutex))
@@ -298,6 +299,7 @@ class HttpServer {
 	private: const size_t workerCount;
 	private: std::vector<std::thread> workers;
 	private: std::unique_ptr<std::atomic_uint> launched;
+	private: std::unique_ptr<std::atomic_bool> callingThreadIsWorker;
 	private: std::shared_ptr<Impl::Listener> listener;
 	private: std::unique_ptr<boost::asio::io_context> ioContext;
 	private: std::unique_ptr<std::mutex> mutex;
-- 
2.43.0


From 059450ab2f7ee573c3c9943bc0d912062c6668ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:47 +0000
Subject: [PATCH 136/143] fix: the HTTP clients wait for a body in the response
 to a HEAD request

---
 src/main/cpp/Balau/Network/Http/Client/HttpClient.hpp  | 6 ++++--
 src/main/cpp/Balau/Network/Http/Client/HttpsClient.hpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/main/cpp/Balau/Network/Http/Client/HttpClient.hpp b/src/main/cpp/Balau/Network/Http/Client/HttpClient.hpp
index 920cab1..a47957a 100644
--- a/src/main/cpp/Balau/Network/Http/Client/HttpClient.hpp
+++ b/src/main/cpp/Balau/Network/Http/Client/HttpClient.hpp
@@ -221,8 +221,10 @@ ResponseT HttpClient::sendRequest(Method verb, const std::string_view & path, co
 	HTTP::write(socket, request);
 
 	Buffer buffer {};
-	ResponseT response;
-	HTTP::read(socket, buffer, response);
+	HTTP::response_parser<typename ResponseT::body_type> parser;
+	parser.skip(verb == Method::head); // The response to a HEAD request does not have a body.
+	HTTP::read(socket, buffer, parser);
+	ResponseT response = parser.release();
 
 	////////////// Disconnect /////////////
 
diff --git a/src/main/cpp/Balau/Network/Http/Client/HttpsClient.hpp b/src/main/cpp/Balau/Network/Http/Client/HttpsClient.hpp
index 7aa6b02..ee18e72 100644
--- a/src/main/cpp/Balau/Network/Http/Client/HttpsClient.hpp
+++ b/src/main/cpp/Balau/Network/Http/Client/HttpsClient.hpp
@@ -143,8 +143,10 @@ class HttpsClient : public HttpClient {
 		HTTP::write(stream, request);
 
 		Buffer buffer {};
-		ResponseT response;
-		HTTP::read(stream, buffer, response);
+		HTTP::response_parser<typename ResponseT::body_type> parser;
+		parser.skip(verb == Method::head); // The response to a HEAD request does not have a body.
+		HTTP::read(stream, buffer, parser);
+		ResponseT response = parser.release();
 		boost::system::error_code errorCode {};
 		stream.shutdown(errorCode);
 
-- 
2.43.0


From 1aa41047e5986459b138fe77454bf44b11228161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:47 +0000
Subject: [PATCH 137/143] fix: the email sender reported success when the email
 could not be sent

---
 .../Http/Server/HttpWebApps/Impl/CurlEmailSender.cpp     | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/Impl/CurlEmailSender.cpp b/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/Impl/CurlEmailSender.cpp
index 0188dce..b3527ce 100644
--- a/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/Impl/CurlEmailSender.cpp
+++ b/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/Impl/CurlEmailSender.cpp
@@ -20,6 +20,7 @@
 #include "CurlEmailSender.hpp"
 
 #include "CurlInitializer.hpp"
+#include "../../../../../Exception/NetworkExceptions.hpp"
 #include "../../../../../System/SystemClock.hpp"
 #include "../../../../../Type/UUID.hpp"
 #include "../../../../../Util/DateTime.hpp"
@@ -159,8 +160,7 @@ void CurlEmailSender::sendEmail(const std::string & from,
 	curl = curl_easy_init();
 
 	if (curl == nullptr) {
-		log.error("Failed to create Curl context.");
-		return;
+		ThrowBalauException(Exception::NetworkException, "Failed to create Curl context.");
 	}
 
 	// Set up the clean up.
@@ -232,7 +232,10 @@ void CurlEmailSender::sendEmail(const std::string & from,
 	res = curl_easy_perform(curl);
 
 	if (res != CURLE_OK) {
-		log.error("Failed to send email due to Curl error: {}", curl_easy_strerror(res));
+		ThrowBalauException(
+			  Exception::NetworkException
+			, ::toString("Failed to send email due to Curl error: ", curl_easy_strerror(res))
+		);
 	}
 }
 
-- 
2.43.0


From 3eafbaa2dbc0fd73062ccc3d8ce71cbbdbbdb579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:41 +0000
Subject: [PATCH 138/143] fix: requests below a null routing node were not
 routed to the nearest handler

---
 .../Http/Server/HttpWebApps/RoutingHttpWebApp.hpp    | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/RoutingHttpWebApp.hpp b/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/RoutingHttpWebApp.hpp
index 79b2b48..fe741b4 100644
--- a/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/RoutingHttpWebApp.hpp
+++ b/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/RoutingHttpWebApp.hpp
@@ -144,6 +144,12 @@ class RoutingHttpWebApp : public HttpWebApp {
 
 		Node * node = routing.findNearest(components, [] (auto & lhs, auto & rhs) { return std::get<KeyIndex>(lhs) == rhs; }, false);
 
+		// Null nodes do not handle requests.. these are routed to the nearest parent that does.
+		while (node != nullptr && components.size() > 1 && isNull(node->value)) {
+			components.pop_back();
+			node = routing.findNearest(components, [] (auto & lhs, auto & rhs) { return std::get<KeyIndex>(lhs) == rhs; }, false);
+		}
+
 		if (node != nullptr) {
 			HttpWebApp * handler;
 
@@ -179,6 +185,12 @@ class RoutingHttpWebApp : public HttpWebApp {
 		return nullptr;
 	}
 
+	private: static bool isNull(const Value & value) {
+		return std::get<GetHandlerIndex>(value) == nullptr
+			&& std::get<HeadHandlerIndex>(value) == nullptr
+			&& std::get<PostHandlerIndex>(value) == nullptr;
+	}
+
 	private: void sendNotFoundResponse(HttpSession & session, const StringRequest & request);
 
 	private: Routing routing;
-- 
2.43.0


From 7046f89fd2b19bd7e57a4ea831e16bfa23aa9312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:41 +0000
Subject: [PATCH 139/143] fix: HTTP sessions were never closed when the client
 disconnected before the response

---
 src/main/cpp/Balau/Network/Http/Server/HttpSession.cpp | 6 ++++++
 src/main/cpp/Balau/Network/Http/Server/HttpSession.hpp | 3 ++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Network/Http/Server/HttpSession.cpp b/src/main/cpp/Balau/Network/Http/Server/HttpSession.cpp
index 31fd4e6..3e0419c 100644
--- a/src/main/cpp/Balau/Network/Http/Server/HttpSession.cpp
+++ b/src/main/cpp/Balau/Network/Http/Server/HttpSession.cpp
@@ -32,6 +32,12 @@ HttpSession::HttpSession(Impl::HttpSessions & httpSessions_,
 	, serverConfiguration(std::move(serverConfiguration_))
 	, strand(static_cast<boost::asio::io_context &>(socket_.get_executor().context()).get_executor())
 	, socket(std::move(socket_)) {
+	boost::system::error_code errorCode;
+	const auto remoteEndpoint = socket.remote_endpoint(errorCode);
+
+	if (!errorCode) {
+		remoteAddress = remoteEndpoint.address();
+	}
 }
 
 void HttpSession::doRead() {
diff --git a/src/main/cpp/Balau/Network/Http/Server/HttpSession.hpp b/src/main/cpp/Balau/Network/Http/Server/HttpSession.hpp
index a5c1c45..4d9bb38 100644
--- a/src/main/cpp/Balau/Network/Http/Server/HttpSession.hpp
+++ b/src/main/cpp/Balau/Network/Http/Server/HttpSession.hpp
@@ -77,7 +77,7 @@ class HttpSession final : public std::enable_shared_from_this<HttpSession> {
 	/// Get the requester's IP address for logging.
 	///
 	public: Address remoteIpAddress() const {
-		return socket.remote_endpoint().address();
+		return remoteAddress;
 	}
 
 	///
@@ -219,6 +219,7 @@ class HttpSession final : public std::enable_shared_from_this<HttpSession> {
 	private: std::shared_ptr<HttpServerConfiguration> serverConfiguration;
 	private: boost::asio::strand<boost::asio::io_context::executor_type> strand;
 	private: TCP::socket socket;
+	private: Address remoteAddress; // Obtained in advance, as this fails once the client has disconnected.
 	private: Buffer buffer;
 	private: StringRequest request;
 	private: std::string cookieString;
-- 
2.43.0


From 58989b0858688c9f599d642eb85dbf6f6867416c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:41 +0000
Subject: [PATCH 140/143] fix: a connection accepted while the HTTP listener
 was closed restarted the listener endlessly

---
 .../cpp/Balau/Network/Http/Server/Impl/Listener.hpp  | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/main/cpp/Balau/Network/Http/Server/Impl/Listener.hpp b/src/main/cpp/Balau/Network/Http/Server/Impl/Listener.hpp
index 39364bf..9fc6561 100644
--- a/src/main/cpp/Balau/Network/Http/Server/Impl/Listener.hpp
+++ b/src/main/cpp/Balau/Network/Http/Server/Impl/Listener.hpp
@@ -71,6 +71,18 @@ class Listener final : public std::enable_shared_from_this<Listener> {
 	}
 
 	private: void onAccept(boost::system::error_code errorCode) {
+		if (!acceptor.is_open()) {
+			// The listener was closed.. a connection accepted in the meantime is closed with the listener.
+			BalauBalauLogInfo(
+				  serverConfiguration->logger
+				, "Listener {}:{} stopping due to closure"
+				, serverConfiguration->endpoint.address()
+				, serverConfiguration->endpoint.port()
+			);
+
+			return;
+		}
+
 		if (!errorCode) {
 			// ASIO states that following the socket move, the moved-from socket is in the same
 			// state as if constructed using basic_stream_socket<tcp>(io_context &) constructor.
-- 
2.43.0


From d806b4529bf6531b621997d4c4cb870e1eac328d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:41 +0000
Subject: [PATCH 141/143] fix: emails longer than the buffer of Curl repeated
 their beginning

---
 .../Network/Http/Server/HttpWebApps/Impl/CurlEmailSender.cpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/Impl/CurlEmailSender.cpp b/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/Impl/CurlEmailSender.cpp
index b3527ce..bf2081e 100644
--- a/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/Impl/CurlEmailSender.cpp
+++ b/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/Impl/CurlEmailSender.cpp
@@ -64,7 +64,7 @@ size_t dataSourceCallback(void * ptr, size_t size, size_t count, void * obj) {
 	}
 
 	const size_t requiredBytes = bytes < availableBytes ? bytes : availableBytes;
-	memcpy(ptr, emailData->data.data(), requiredBytes);
+	memcpy(ptr, emailData->data.data() + emailData->bytesTransferred, requiredBytes);
 	emailData->bytesTransferred += requiredBytes;
 	return requiredBytes;
 }
-- 
2.43.0


From e32bdd238942fad9c68dfa81fc7e690b2f11c83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:34 +0000
Subject: [PATCH 142/143] fix: unique pointers could not be requested from the
 injector with a default value

---
 src/main/cpp/Balau/Application/Injector.hpp | 34 ++++++++++-----------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/main/cpp/Balau/Application/Injector.hpp b/src/main/cpp/Balau/Application/Injector.hpp
index 2fca44e..0709dbd 100644
--- a/src/main/cpp/Balau/Application/Injector.hpp
+++ b/src/main/cpp/Balau/Application/Injector.hpp
@@ -450,7 +450,7 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 	/// @return a unique pointer containing the new instance or the supplied default
 	///
 	public: template <typename BaseT, typename DeleterT = std::default_delete<BaseT>>
-	std::unique_ptr<BaseT, DeleterT> getUnique(std::unique_ptr<BaseT> && defaultValue) const {
+	std::unique_ptr<BaseT, DeleterT> getUnique(std::unique_ptr<BaseT, DeleterT> && defaultValue) const {
 		return GetInstance<std::unique_ptr<BaseT, DeleterT>>(this).get("", std::move(defaultValue));
 	}
 
@@ -483,7 +483,7 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 	/// @return a unique pointer containing the new instance or the supplied default
 	///
 	public: template <typename BaseT, typename DeleterT = std::default_delete<BaseT>>
-	std::unique_ptr<BaseT, DeleterT> getUnique(std::function<std::unique_ptr<BaseT, DeleterT> ()> & defaultValueSupplier) const {
+	std::unique_ptr<BaseT, DeleterT> getUnique(const std::function<std::unique_ptr<BaseT, DeleterT> ()> & defaultValueSupplier) const {
 		return GetInstance<std::unique_ptr<BaseT, DeleterT>>(this).get("", defaultValueSupplier);
 	}
 
@@ -500,7 +500,7 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 	/// @return a unique pointer containing the new instance or the supplied default
 	///
 	public: template <typename BaseT, typename DeleterT = std::default_delete<BaseT>>
-	std::unique_ptr<BaseT, DeleterT> getUnique(std::string_view name, std::function<std::unique_ptr<BaseT, DeleterT> ()> & defaultValueSupplier) const {
+	std::unique_ptr<BaseT, DeleterT> getUnique(std::string_view name, const std::function<std::unique_ptr<BaseT, DeleterT> ()> & defaultValueSupplier) const {
 		return GetInstance<std::unique_ptr<BaseT, DeleterT>>(this).get(name, defaultValueSupplier);
 	}
 
@@ -767,8 +767,8 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 			return injector->getUniqueImpl<BaseT, DeleterT>(name);
 		}
 
-		std::unique_ptr<BaseT, DeleterT> get(std::string_view name, std::unique_ptr<BaseT, DeleterT> & defaultValue) const {
-			return injector->getUniqueImpl<BaseT, DeleterT>(name, defaultValue);
+		std::unique_ptr<BaseT, DeleterT> get(std::string_view name, std::unique_ptr<BaseT, DeleterT> && defaultValue) const {
+			return injector->getUniqueImpl<BaseT, DeleterT>(name, std::move(defaultValue));
 		}
 
 		std::unique_ptr<BaseT, DeleterT> get(std::string_view name, const std::function<std::unique_ptr<BaseT, DeleterT> ()> & defaultValueSupplier) const {
@@ -800,8 +800,8 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 			return injector->getUniqueImpl<BaseT, DeleterT>(name);
 		}
 
-		std::unique_ptr<BaseT, DeleterT> get(std::string_view name, std::unique_ptr<BaseT, DeleterT> & defaultValue) const {
-			return injector->getUniqueImpl<BaseT, DeleterT>(name, defaultValue);
+		std::unique_ptr<BaseT, DeleterT> get(std::string_view name, std::unique_ptr<BaseT, DeleterT> && defaultValue) const {
+			return injector->getUniqueImpl<BaseT, DeleterT>(name, std::move(defaultValue));
 		}
 
 		std::unique_ptr<BaseT, DeleterT> get(std::string_view name, const std::function<std::unique_ptr<BaseT, DeleterT> ()> & defaultValueSupplier) const {
@@ -835,12 +835,12 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 			return injector->getUniqueImpl<BaseT, PromotedDeleterT>(name);
 		}
 
-		std::unique_ptr<BaseT, PromotedDeleterT> get(std::string_view name, std::unique_ptr<BaseT, PromotedDeleterT> & defaultValue) const {
-			return injector->getUniqueImpl<BaseT, PromotedDeleterT>(name, defaultValue);
+		std::unique_ptr<const BaseT, DeleterT> get(std::string_view name, std::unique_ptr<const BaseT, DeleterT> && defaultValue) const {
+			return hasBinding(name) ? std::unique_ptr<const BaseT, DeleterT>(get(name)) : std::move(defaultValue);
 		}
 
-		std::unique_ptr<BaseT, PromotedDeleterT> get(std::string_view name, const std::function<std::unique_ptr<BaseT, PromotedDeleterT> ()> & defaultValueSupplier) const {
-			return injector->getUniqueImpl<BaseT, PromotedDeleterT>(name, defaultValueSupplier);
+		std::unique_ptr<const BaseT, DeleterT> get(std::string_view name, const std::function<std::unique_ptr<const BaseT, DeleterT> ()> & defaultValueSupplier) const {
+			return hasBinding(name) ? std::unique_ptr<const BaseT, DeleterT>(get(name)) : defaultValueSupplier();
 		}
 
 		bool hasBinding(std::string_view name) const {
@@ -870,12 +870,12 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 			return injector->getUniqueImpl<BaseT, PromotedDeleterT>(name);
 		}
 
-		std::unique_ptr<BaseT, PromotedDeleterT> get(std::string_view name, std::unique_ptr<BaseT, PromotedDeleterT> & defaultValue) const {
-			return injector->getUniqueImpl<BaseT, PromotedDeleterT>(name, defaultValue);
+		std::unique_ptr<const BaseT, DeleterT> get(std::string_view name, std::unique_ptr<const BaseT, DeleterT> && defaultValue) const {
+			return hasBinding(name) ? std::unique_ptr<const BaseT, DeleterT>(get(name)) : std::move(defaultValue);
 		}
 
-		std::unique_ptr<BaseT, PromotedDeleterT> get(std::string_view name, const std::function<std::unique_ptr<BaseT, PromotedDeleterT> ()> & defaultValueSupplier) const {
-			return injector->getUniqueImpl<BaseT, PromotedDeleterT>(name, defaultValueSupplier);
+		std::unique_ptr<const BaseT, DeleterT> get(std::string_view name, const std::function<std::unique_ptr<const BaseT, DeleterT> ()> & defaultValueSupplier) const {
+			return hasBinding(name) ? std::unique_ptr<const BaseT, DeleterT>(get(name)) : defaultValueSupplier();
 		}
 
 		bool hasBinding(std::string_view name) const {
@@ -1315,7 +1315,7 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 	}
 
 	private: template <typename BaseT, typename DeleterT>
-	std::unique_ptr<BaseT, DeleterT> getUniqueImpl(std::string_view name, std::unique_ptr<BaseT> && defaultValue) const {
+	std::unique_ptr<BaseT, DeleterT> getUniqueImpl(std::string_view name, std::unique_ptr<BaseT, DeleterT> && defaultValue) const {
 		const Impl::BindingKeyView keyView(typeid(Impl::BindingKeyType<Impl::BindingMetaType::Unique, BaseT, DeleterT>), name);
 
 		const auto * binding = bindings->find(keyView);
@@ -1330,7 +1330,7 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 	}
 
 	private: template <typename BaseT, typename DeleterT>
-	std::unique_ptr<BaseT, DeleterT> getUniqueImpl(std::string_view name, std::function<std::unique_ptr<BaseT> ()> & defaultValueSupplier) const {
+	std::unique_ptr<BaseT, DeleterT> getUniqueImpl(std::string_view name, const std::function<std::unique_ptr<BaseT, DeleterT> ()> & defaultValueSupplier) const {
 		const Impl::BindingKeyView keyView(typeid(Impl::BindingKeyType<Impl::BindingMetaType::Unique, BaseT, DeleterT>), name);
 
 		const auto * binding = bindings->find(keyView);
-- 
2.43.0


From 8f893298c8b08058fdcbdff856f685f2871c7415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:07 +0000
Subject: [PATCH 143/143] fix: const references and shared pointers could not
 be requested from the injector with a default value

---
 src/main/cpp/Balau/Application/Injector.hpp | 44 +++++++++++++--------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/src/main/cpp/Balau/Application/Injector.hpp b/src/main/cpp/Balau/Application/Injector.hpp
index 0709dbd..1c7c61a 100644
--- a/src/main/cpp/Balau/Application/Injector.hpp
+++ b/src/main/cpp/Balau/Application/Injector.hpp
@@ -1026,7 +1026,7 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 			return injector->getSharedImpl<const BaseT>(name);
 		}
 
-		std::shared_ptr<const BaseT> get(std::string_view name, std::shared_ptr<const BaseT> & defaultValue) const {
+		std::shared_ptr<const BaseT> get(std::string_view name, const std::shared_ptr<const BaseT> & defaultValue) const {
 			return injector->getSharedImpl<const BaseT>(name, defaultValue);
 		}
 
@@ -1059,7 +1059,7 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 			return injector->getSharedImpl<const BaseT>(name);
 		}
 
-		std::shared_ptr<const BaseT> get(std::string_view name, std::shared_ptr<const BaseT> & defaultValue) const {
+		std::shared_ptr<const BaseT> get(std::string_view name, const std::shared_ptr<const BaseT> & defaultValue) const {
 			return injector->getSharedImpl<const BaseT>(name, defaultValue);
 		}
 
@@ -1158,7 +1158,7 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 			return injector->getSharedImpl<const BaseT>(name);
 		}
 
-		std::shared_ptr<const BaseT> get(std::string_view name, std::shared_ptr<const BaseT> & defaultValue) const {
+		std::shared_ptr<const BaseT> get(std::string_view name, const std::shared_ptr<const BaseT> & defaultValue) const {
 			return injector->getSharedImpl<const BaseT>(name, defaultValue);
 		}
 
@@ -1191,7 +1191,7 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 			return injector->getSharedImpl<const BaseT>(name);
 		}
 
-		std::shared_ptr<const BaseT> get(std::string_view name, std::shared_ptr<const BaseT> & defaultValue) const {
+		std::shared_ptr<const BaseT> get(std::string_view name, const std::shared_ptr<const BaseT> & defaultValue) const {
 			return injector->getSharedImpl<const BaseT>(name, defaultValue);
 		}
 
@@ -1291,11 +1291,15 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 			return parent->getReferenceImpl<T>(name, defaultValue);
 		} else {
 			// Try a non-const binding?
-			if (Impl::BindingKeyType<Impl::BindingMetaType::Reference, T>::isConst) {
-				return getReferenceImpl<typename std::remove_const<T>::type>(name, defaultValue);
-			} else {
-				return defaultValue;
+			if constexpr (std::is_const<T>::value) {
+				using NonConstT = typename std::remove_const<T>::type;
+
+				if (hasBinding(GetInstance<NonConstT &>::createBindingKeyView(name))) {
+					return getReferenceImpl<NonConstT>(name);
+				}
 			}
+
+			return defaultValue;
 		}
 	}
 
@@ -1386,11 +1390,15 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 			return parent->getSharedImpl<BaseT>(name, defaultValue);
 		} else {
 			// Try a non-const binding?
-			if (Impl::BindingKeyType<Impl::BindingMetaType::Shared, BaseT>::isConst) {
-				return getSharedImpl<typename std::remove_const<BaseT>::type>(name, defaultValue);
-			} else {
-				return defaultValue;
+			if constexpr (std::is_const<BaseT>::value) {
+				using NonConstBaseT = typename std::remove_const<BaseT>::type;
+
+				if (hasBinding(GetInstance<std::shared_ptr<NonConstBaseT>>::createBindingKeyView(name))) {
+					return getSharedImpl<NonConstBaseT>(name);
+				}
 			}
+
+			return defaultValue;
 		}
 	}
 
@@ -1411,11 +1419,15 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 			return parent->getSharedImpl<BaseT>(name, defaultValueSupplier);
 		} else {
 			// Try a non-const binding?
-			if (Impl::BindingKeyType<Impl::BindingMetaType::Shared, BaseT>::isConst) {
-				return getSharedImpl<typename std::remove_const<BaseT>::type>(name, defaultValueSupplier);
-			} else {
-				return defaultValueSupplier();
+			if constexpr (std::is_const<BaseT>::value) {
+				using NonConstBaseT = typename std::remove_const<BaseT>::type;
+
+				if (hasBinding(GetInstance<std::shared_ptr<NonConstBaseT>>::createBindingKeyView(name))) {
+					return getSharedImpl<NonConstBaseT>(name);
+				}
 			}
+
+			return defaultValueSupplier();
 		}
 	}
 
-- 
2.43.0

