From 3d47801bcbdf53a70868f8414ed994b2329b85e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:05 +0000
Subject: [PATCH 01/44] fix: read whole lines from files, whatever their length

---
 src/util.cc | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/util.cc b/src/util.cc
index 244630d..32f43b4 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -73,13 +73,20 @@ sub::get_line_string (string* s)
 optional<string>
 sub::get_line_file (FILE* f)
 {
-	char buffer[256];
-	char* r = fgets (buffer, sizeof (buffer), f);
-	if (r == 0) {
+	string line;
+	int c;
+	while ((c = fgetc (f)) != EOF) {
+		line += static_cast<char> (c);
+		if (c == '\n') {
+			break;
+		}
+	}
+
+	if (line.empty ()) {
 		return optional<string> ();
 	}
 
-	return string (buffer);
+	return line;
 }
 
 void
-- 
2.43.0


From ae6cfc0af94e5935388f0a2bc4ed00d5aa730836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:21 +0000
Subject: [PATCH 02/44] fix: do not take a read error for the end of the file

---
 src/exceptions.h       | 11 +++++++++++
 src/stl_text_reader.cc |  7 ++++++-
 src/util.cc            |  5 +++++
 3 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/exceptions.h b/src/exceptions.h
index 58659ad..d4cfd7b 100644
--- a/src/exceptions.h
+++ b/src/exceptions.h
@@ -27,6 +27,17 @@
 
 namespace sub {
 
+/** @class ReadError
+ *  @brief An error raised when the source of some subtitles cannot be read.
+ */
+class ReadError : public std::runtime_error
+{
+public:
+	ReadError ()
+		: std::runtime_error ("could not read subtitles")
+	{}
+};
+
 /** @class XMLError
  *  @brief An error raised when reading an XML file.
  */
diff --git a/src/stl_text_reader.cc b/src/stl_text_reader.cc
index f08a438..1f1a24b 100644
--- a/src/stl_text_reader.cc
+++ b/src/stl_text_reader.cc
@@ -19,6 +19,7 @@
 
 #include "stl_text_reader.h"
 #include "compose.hpp"
+#include "exceptions.h"
 #include <boost/algorithm/string.hpp>
 #include <boost/lexical_cast.hpp>
 #include <vector>
@@ -48,7 +49,7 @@ STLTextReader::STLTextReader (istream& in)
 		string line;
 		getline (in, line);
 		if (!in.good ()) {
-			return;
+			break;
 		}
 
 		trim (line);
@@ -130,6 +131,10 @@ STLTextReader::STLTextReader (istream& in)
 			maybe_push ();
 		}
 	}
+
+	if (in.bad ()) {
+		throw ReadError ();
+	}
 }
 
 optional<Time>
diff --git a/src/util.cc b/src/util.cc
index 32f43b4..c8916c7 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -18,6 +18,7 @@
 */
 
 #include "util.h"
+#include "exceptions.h"
 #include "reader.h"
 #include "subtitle.h"
 #include "collect.h"
@@ -82,6 +83,10 @@ sub::get_line_file (FILE* f)
 		}
 	}
 
+	if (c == EOF && !feof (f)) {
+		throw ReadError ();
+	}
+
 	if (line.empty ()) {
 		return optional<string> ();
 	}
-- 
2.43.0


From 10fe31775b0bfbc3c8259a86fcf6110f48010adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:24 +0000
Subject: [PATCH 03/44] fix: do not ignore the last line of a text STL file if
 it is not terminated

---
 src/stl_text_reader.cc | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/stl_text_reader.cc b/src/stl_text_reader.cc
index 1f1a24b..eef0064 100644
--- a/src/stl_text_reader.cc
+++ b/src/stl_text_reader.cc
@@ -45,13 +45,8 @@ STLTextReader::STLTextReader (istream& in)
 	_subtitle.vertical_position.line = 0;
 	_subtitle.vertical_position.reference = TOP_OF_SUBTITLE;
 
-	while (in.good ()) {
-		string line;
-		getline (in, line);
-		if (!in.good ()) {
-			break;
-		}
-
+	string line;
+	while (getline (in, line)) {
 		trim (line);
 
 		if (starts_with (line, "//")) {
-- 
2.43.0


From 4fcd71f335ad812a3b340f4528aaa1ffc673037a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:27 +0000
Subject: [PATCH 04/44] fix: do not lose the last digit of the in time in text
 STL files

---
 src/stl_text_reader.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stl_text_reader.cc b/src/stl_text_reader.cc
index eef0064..607f2e1 100644
--- a/src/stl_text_reader.cc
+++ b/src/stl_text_reader.cc
@@ -80,7 +80,7 @@ STLTextReader::STLTextReader (istream& in)
 				continue;
 			}
 
-			string from_string = line.substr (0, divider[0] - 1);
+			string from_string = line.substr (0, divider[0]);
 			trim (from_string);
 			string to_string = line.substr (divider[0] + 1, divider[1] - divider[0] - 1);
 			trim (to_string);
-- 
2.43.0


From 623e3d063e8265a083533ebdbe35825143f30df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:30 +0000
Subject: [PATCH 05/44] fix: number lines from the start of each text STL
 subtitle

---
 src/stl_text_reader.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stl_text_reader.cc b/src/stl_text_reader.cc
index 607f2e1..3b622f8 100644
--- a/src/stl_text_reader.cc
+++ b/src/stl_text_reader.cc
@@ -95,6 +95,7 @@ STLTextReader::STLTextReader (istream& in)
 
 			_subtitle.from = from.get ();
 			_subtitle.to = to.get ();
+			_subtitle.vertical_position.line = 0;
 
 			/* Parse ^B/^I/^U */
 			string text = line.substr (divider[1] + 1);
@@ -167,6 +168,5 @@ STLTextReader::maybe_push ()
 	if (!_subtitle.text.empty ()) {
 		_subs.push_back (_subtitle);
 		_subtitle.text.clear ();
-		_subtitle.vertical_position.line = 0;
 	}
 }
-- 
2.43.0


From e0a623284760f8ab32868b9c7dfe477b84b54759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:40 +0000
Subject: [PATCH 06/44] fix: handle SubRip font tags which span lines or are
 closed too often

---
 src/subrip_reader.cc | 15 ++++++---------
 src/subrip_reader.h  |  2 ++
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/subrip_reader.cc b/src/subrip_reader.cc
index b95e6be..4cbe5cb 100644
--- a/src/subrip_reader.cc
+++ b/src/subrip_reader.cc
@@ -108,6 +108,7 @@ SubripReader::read (function<optional<string> ()> get_line)
 			state = METADATA;
 			rs = RawSubtitle{};
 			prepare(rs);
+			_colours.clear();
 		}
 		break;
 		case METADATA:
@@ -225,9 +226,6 @@ SubripReader::convert_time(string t, string milliseconds_separator, string* expe
 void
 SubripReader::convert_line(int line_number, string t, RawSubtitle& p)
 {
-	vector<Colour> colours;
-	colours.push_back (Colour (1, 1, 1));
-
 	auto has_next = [](string line, size_t& index, string s) {
 		boost::to_lower(s);
 		auto next = line.substr(index, s.size());
@@ -262,6 +260,7 @@ SubripReader::convert_line(int line_number, string t, RawSubtitle& p)
 			p.underline = false;
 		} else if (has_next(t, i, "<font") || has_next(t, i, "<Font")) {
 			maybe_content (p);
+			auto const previous_colour = p.colour;
 			boost::regex re (".*color=[\"\']?#([[:xdigit:]]+)[\"\']?");
 			boost::smatch match;
 			string tag;
@@ -273,10 +272,8 @@ SubripReader::convert_line(int line_number, string t, RawSubtitle& p)
 			if (boost::regex_search(tag, match, re)) {
 				if (string(match[1]).size() == 6) {
 					p.colour = Colour::from_rgb_hex(match[1]);
-					colours.push_back(p.colour);
 				} else if (string(match[1]).size() == 8) {
 					p.colour = Colour::from_rgba_hex(match[1]);
-					colours.push_back(p.colour);
 				} else {
 					throw SubripError(line_number, tag, "a colour in the format #rrggbb #rrggbbaa or rgba(rr,gg,bb,aa)", _context);
 				}
@@ -293,17 +290,17 @@ SubripReader::convert_line(int line_number, string t, RawSubtitle& p)
 					p.colour.r = raw_convert<int>(string(match[1])) / 255.0;
 					p.colour.g = raw_convert<int>(string(match[2])) / 255.0;
 					p.colour.b = raw_convert<int>(string(match[3])) / 255.0;
-					colours.push_back (p.colour);
 				} else {
 					throw SubripError(line_number, tag, "a colour in the format #rrggbb #rrggbbaa or rgba(rr,gg,bb,aa)", _context);
 				}
 			}
+			_colours.push_back(previous_colour);
 		} else if (has_next(t, i, "</font>")) {
 			maybe_content (p);
 			/* Maybe there were no colours, or this is an extra unmatched </font> */
-			if (!colours.empty()) {
-				colours.pop_back();
-				p.colour = colours.back();
+			if (!_colours.empty()) {
+				p.colour = _colours.back();
+				_colours.pop_back();
 			}
 		} else if (has_next(t, i, "{\\")) {
 			string ssa = "\\";
diff --git a/src/subrip_reader.h b/src/subrip_reader.h
index bf438ed..c7a68b0 100644
--- a/src/subrip_reader.h
+++ b/src/subrip_reader.h
@@ -56,6 +56,8 @@ private:
 	void read (boost::function<boost::optional<std::string> ()> get_line);
 
 	std::list<std::string> _context;
+	/** colours to go back to at each </font> in the current subtitle */
+	std::vector<Colour> _colours;
 };
 
 }
-- 
2.43.0


From dad61288d0a1a2007984fab5bccc7215afd17f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:50 +0000
Subject: [PATCH 07/44] fix: strip right-to-left embedding from every part of a
 SubRip line

---
 src/subrip_reader.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/subrip_reader.cc b/src/subrip_reader.cc
index 4cbe5cb..8242336 100644
--- a/src/subrip_reader.cc
+++ b/src/subrip_reader.cc
@@ -316,11 +316,6 @@ SubripReader::convert_line(int line_number, string t, RawSubtitle& p)
 		}
 	}
 
-	/* Strip Unicode U+202B (right-to-left embedding) as sometimes it is rendered
-	   as a missing character.  This may be a hack.
-	*/
-	replace_all (p.text, "\xe2\x80\xab", "");
-
 	maybe_content (p);
 }
 
@@ -328,6 +323,11 @@ SubripReader::convert_line(int line_number, string t, RawSubtitle& p)
 void
 SubripReader::maybe_content (RawSubtitle& p)
 {
+	/* Strip Unicode U+202B (right-to-left embedding) as sometimes it is rendered
+	   as a missing character.  This may be a hack.
+	*/
+	replace_all (p.text, "\xe2\x80\xab", "");
+
 	if (!p.text.empty ()) {
 		_subs.push_back (p);
 		p.text.clear ();
-- 
2.43.0


From 2caad7f71c06b3dab338658f1a7802e76ec83ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:02 +0000
Subject: [PATCH 08/44] fix: recognise SubRip tags in the same way whatever the
 global locale

---
 src/subrip_reader.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/subrip_reader.cc b/src/subrip_reader.cc
index 8242336..2991f36 100644
--- a/src/subrip_reader.cc
+++ b/src/subrip_reader.cc
@@ -227,9 +227,9 @@ void
 SubripReader::convert_line(int line_number, string t, RawSubtitle& p)
 {
 	auto has_next = [](string line, size_t& index, string s) {
-		boost::to_lower(s);
+		boost::to_lower(s, std::locale::classic());
 		auto next = line.substr(index, s.size());
-		boost::to_lower(next);
+		boost::to_lower(next, std::locale::classic());
 		if (next != s) {
 			return false;
 		}
-- 
2.43.0


From 5666de0d175788acd193fadd92d0aa62e0843c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:06 +0000
Subject: [PATCH 09/44] fix: format binary STL metadata in the same way
 whatever the global locale

---
 src/stl_binary_reader.cc | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/stl_binary_reader.cc b/src/stl_binary_reader.cc
index 7b38065..36b400b 100644
--- a/src/stl_binary_reader.cc
+++ b/src/stl_binary_reader.cc
@@ -22,7 +22,6 @@
 #include "iso6937.h"
 #include "stl_util.h"
 #include "compose.hpp"
-#include <boost/lexical_cast.hpp>
 #include <boost/algorithm/string.hpp>
 #include <boost/locale.hpp>
 #include <iostream>
@@ -32,7 +31,6 @@ using std::vector;
 using std::cout;
 using std::string;
 using std::istream;
-using boost::lexical_cast;
 using boost::algorithm::replace_all;
 using boost::is_any_of;
 using boost::locale::conv::utf_to_utf;
@@ -332,8 +330,8 @@ STLBinaryReader::metadata () const
 {
 	map<string, string> m;
 
-	m["Code page number"] = lexical_cast<string> (code_page_number);
-	m["Frame rate"] = lexical_cast<string> (frame_rate);
+	m["Code page number"] = std::to_string (code_page_number);
+	m["Frame rate"] = std::to_string (frame_rate);
 	m["Display standard"] = _tables.display_standard_enum_to_description (display_standard);
 	m["Language group"] = _tables.language_group_enum_to_description (language_group);
 	m["Language"] = _tables.language_enum_to_description (language);
@@ -347,16 +345,16 @@ STLBinaryReader::metadata () const
 	m["Creation date"] = creation_date;
 	m["Revision date"] = revision_date;
 	m["Revision number"] = revision_number;
-	m["TTI blocks"] = lexical_cast<string> (tti_blocks);
-	m["Number of subtitles"] = lexical_cast<string> (number_of_subtitles);
-	m["Subtitle groups"] = lexical_cast<string> (subtitle_groups);
-	m["Maximum characters"] = lexical_cast<string> (maximum_characters);
-	m["Maximum rows"] = lexical_cast<string> (maximum_rows);
+	m["TTI blocks"] = std::to_string (tti_blocks);
+	m["Number of subtitles"] = std::to_string (number_of_subtitles);
+	m["Subtitle groups"] = std::to_string (subtitle_groups);
+	m["Maximum characters"] = std::to_string (maximum_characters);
+	m["Maximum rows"] = std::to_string (maximum_rows);
 	m["Timecode status"] = _tables.timecode_status_enum_to_description (timecode_status);
 	m["Start of programme"] = start_of_programme;
 	m["First in cue"] = first_in_cue;
-	m["Disks"] = lexical_cast<string> (disks);
-	m["Disk sequence number"] = lexical_cast<string> (disk_sequence_number);
+	m["Disks"] = std::to_string (disks);
+	m["Disk sequence number"] = std::to_string (disk_sequence_number);
 	m["Country of origin"] = country_of_origin;
 	m["Publisher"] = publisher;
 	m["Editor name"] = editor_name;
-- 
2.43.0


From 7c0913f51d1c70eac32b8a9ed5bf8e4adca1020c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:10 +0000
Subject: [PATCH 10/44] fix: correct the language group of binary STL files
 declared as UTF-8

---
 src/stl_binary_tables.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stl_binary_tables.cc b/src/stl_binary_tables.cc
index 2d275df..f606e7c 100644
--- a/src/stl_binary_tables.cc
+++ b/src/stl_binary_tables.cc
@@ -211,7 +211,7 @@ STLBinaryTables::STLBinaryTables ()
 	code<LanguageGroup, string> (_language_group_map, "02", LANGUAGE_GROUP_LATIN_ARABIC, "Latin/Arabic");
 	code<LanguageGroup, string> (_language_group_map, "03", LANGUAGE_GROUP_LATIN_GREEK, "Latin/Greek");
 	code<LanguageGroup, string> (_language_group_map, "04", LANGUAGE_GROUP_LATIN_HEBREW, "Latin/Hebrew");
-	code<LanguageGroup, string> (_language_group_map, "U8", LANGUAGE_GROUP_LATIN_HEBREW, "UTF-8");
+	code<LanguageGroup, string> (_language_group_map, "U8", LANGUAGE_GROUP_UTF8, "UTF-8");
 
 	code<Language, string> (_language_map, "00", LANGUAGE_UNKNOWN, "Unknown");
 	code<Language, string> (_language_map, "01", LANGUAGE_ALBANIAN, "Albanian");
-- 
2.43.0


From c153e4bf03987a2efb91271c7bd9147e1f85dc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:40 +0000
Subject: [PATCH 11/44] fix: make the ISO 6937 tables safely when several
 threads need them

---
 src/iso6937.cc | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/iso6937.cc b/src/iso6937.cc
index 8409f9b..9045006 100644
--- a/src/iso6937.cc
+++ b/src/iso6937.cc
@@ -33,12 +33,18 @@ using boost::optional;
 using boost::locale::conv::utf_to_utf;
 using namespace sub;
 
+/** Make the tables once, however many threads need them and even if the first attempt fails */
+static void
+ensure_tables ()
+{
+	static bool const made = (make_iso6937_tables (), true);
+	(void) made;
+}
+
 wstring
 sub::iso6937_to_utf16 (string s)
 {
-	if (iso6937::diacriticals.empty ()) {
-		make_iso6937_tables ();
-	}
+	ensure_tables ();
 
 	wstring o;
 
@@ -77,9 +83,7 @@ find (map<char, wchar_t> const & m, wchar_t c)
 string
 sub::utf16_to_iso6937 (wstring s)
 {
-	if (iso6937::diacriticals.empty ()) {
-		make_iso6937_tables ();
-	}
+	ensure_tables ();
 
 	/* XXX: slow */
 
-- 
2.43.0


From b133386bafdf4c78c36634f1eb72e877c1f2cb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:41 +0000
Subject: [PATCH 12/44] fix: ignore undefined ISO 6937 codes rather than
 crashing or making null characters

---
 src/iso6937.cc | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/iso6937.cc b/src/iso6937.cc
index 9045006..13fb702 100644
--- a/src/iso6937.cc
+++ b/src/iso6937.cc
@@ -41,6 +41,16 @@ ensure_tables ()
 	(void) made;
 }
 
+/** Append the character for a code to a string, if that code is defined */
+static void
+append (wstring& o, map<char, wchar_t> const & m, unsigned char code)
+{
+	auto const i = m.find (code);
+	if (i != m.end ()) {
+		o += i->second;
+	}
+}
+
 wstring
 sub::iso6937_to_utf16 (string s)
 {
@@ -56,10 +66,13 @@ sub::iso6937_to_utf16 (string s)
 		if (u >= 0xc1 && u <= 0xcf) {
 			diacritical = u;
 		} else if (diacritical) {
-			o += (*iso6937::diacriticals[diacritical.get()])[u];
+			auto const i = iso6937::diacriticals.find (diacritical.get());
+			if (i != iso6937::diacriticals.end ()) {
+				append (o, *i->second, u);
+			}
 			diacritical.reset ();
 		} else {
-			o += iso6937::main[u];
+			append (o, iso6937::main, u);
 		}
 
 		++i;
-- 
2.43.0


From ee92659c5bb65b6785e0164cdd5578f4ad391329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:44 +0000
Subject: [PATCH 13/44] fix: report failure to write a binary STL file

---
 src/stl_binary_writer.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/stl_binary_writer.cc b/src/stl_binary_writer.cc
index 1b1d52f..f6ff5b5 100644
--- a/src/stl_binary_writer.cc
+++ b/src/stl_binary_writer.cc
@@ -26,6 +26,7 @@
 #include "iso6937.h"
 #include "stl_util.h"
 #include "compose.hpp"
+#include "exceptions.h"
 #include "sub_assert.h"
 #include <boost/locale.hpp>
 #include <boost/algorithm/string.hpp>
@@ -390,4 +391,9 @@ sub::write_stl_binary (
 		output.write (i, 128);
 		delete[] i;
 	}
+
+	output.close ();
+	if (!output) {
+		throw STLError (String::compose ("Could not write binary STL file %1", file_name.string()));
+	}
 }
-- 
2.43.0


From 304eadf83c28db4c14d336d7ad99131484df3e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:47 +0000
Subject: [PATCH 14/44] fix: do not leak TTI blocks when a binary STL file
 cannot be written

---
 src/stl_binary_writer.cc | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/stl_binary_writer.cc b/src/stl_binary_writer.cc
index f6ff5b5..8696ac2 100644
--- a/src/stl_binary_writer.cc
+++ b/src/stl_binary_writer.cc
@@ -146,11 +146,11 @@ vertical_position (sub::Line const & line)
 	return vp;
 }
 
-vector<char*>
+vector<string>
 make_tti_blocks (vector<Subtitle> const& subtitles, STLBinaryTables const& tables, float frames_per_second)
 {
 	static int const tti_size = 128;
-	vector<char*> tti;
+	vector<string> tti;
 
 	/* Buffer to build the TTI blocks in */
 	char buffer[tti_size];
@@ -273,9 +273,7 @@ make_tti_blocks (vector<Subtitle> const& subtitles, STLBinaryTables const& table
 			put_int_as_int (buffer + 3, offset == text.length() ? 0xff : block_number, 1);
 			++block_number;
 
-			char* finished = new char[tti_size];
-			memcpy (finished, buffer, tti_size);
-			tti.push_back (finished);
+			tti.push_back (string(buffer, tti_size));
 		}
 	}
 
@@ -338,7 +336,7 @@ sub::write_stl_binary (
 		}
 	}
 
-	vector<char*> tti_blocks = make_tti_blocks (subtitles, tables, frames_per_second);
+	vector<string> tti_blocks = make_tti_blocks (subtitles, tables, frames_per_second);
 
 	/* Code page: 850 */
 	put_string (buffer + 0, "850");
@@ -387,9 +385,8 @@ sub::write_stl_binary (
 
 	ofstream output (file_name.string().c_str());
 	output.write (buffer, 1024);
-	for (auto i: tti_blocks) {
-		output.write (i, 128);
-		delete[] i;
+	for (auto const& i: tti_blocks) {
+		output.write (i.data(), i.length());
 	}
 
 	output.close ();
-- 
2.43.0


From 1aa795f6b3c78e85f0a20a4af7b1818da5bef2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:50 +0000
Subject: [PATCH 15/44] fix: close SubRip files which cannot be parsed

---
 src/reader_factory.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/reader_factory.cc b/src/reader_factory.cc
index 282f14b..46a7a47 100644
--- a/src/reader_factory.cc
+++ b/src/reader_factory.cc
@@ -53,7 +53,13 @@ sub::reader_factory (boost::filesystem::path file_name)
 	if (ext == ".srt") {
 		FILE* f = fopen (file_name.string().c_str(), "r");
 		SUB_ASSERT (f);
-		shared_ptr<Reader> r (new SubripReader(f));
+		shared_ptr<Reader> r;
+		try {
+			r.reset (new SubripReader(f));
+		} catch (...) {
+			fclose (f);
+			throw;
+		}
 		fclose (f);
 		return r;
 	}
-- 
2.43.0


From e62109a2b22a75d5558a4b1f62a7c5c269370374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:52 +0000
Subject: [PATCH 16/44] fix: report STL files which cannot be opened

---
 src/reader_factory.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/reader_factory.cc b/src/reader_factory.cc
index 46a7a47..3c00ca5 100644
--- a/src/reader_factory.cc
+++ b/src/reader_factory.cc
@@ -40,6 +40,7 @@ sub::reader_factory (boost::filesystem::path file_name)
 	if (ext == ".stl") {
 		/* Check the start of the DFC */
 		ifstream f (file_name.string().c_str ());
+		SUB_ASSERT (f.is_open());
 		char buffer[11];
 		f.read (buffer, 11);
 		f.seekg (0);
-- 
2.43.0


From 2cace7ba0a12f1326010bfa20a29c1c28eeda0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:56 +0000
Subject: [PATCH 17/44] fix: let SSA margins of 0000 leave those of the style
 alone

---
 src/ssa_reader.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ssa_reader.cc b/src/ssa_reader.cc
index 1302b6b..8c16dfb 100644
--- a/src/ssa_reader.cc
+++ b/src/ssa_reader.cc
@@ -552,16 +552,16 @@ SSAReader::read (function<optional<string> ()> get_line)
 						left_margin = style->left_margin;
 						right_margin = style->right_margin;
 					} else if (event_format[i] == "MarginV") {
-						if (event[i] != "0" && sub.vertical_position.reference != sub::VERTICAL_CENTRE_OF_SCREEN) {
+						if (raw_convert<float>(event[i]) != 0 && sub.vertical_position.reference != sub::VERTICAL_CENTRE_OF_SCREEN) {
 							/* Override the style if its non-zero */
 							sub.vertical_position.proportional = raw_convert<float>(event[i]) / play_res_y;
 						}
 					} else if (event_format[i] == "MarginL") {
-						if (event[i] != "0") {
+						if (raw_convert<int>(event[i]) != 0) {
 							left_margin = raw_convert<int>(event[i]);
 						}
 					} else if (event_format[i] == "MarginR") {
-						if (event[i] != "0") {
+						if (raw_convert<int>(event[i]) != 0) {
 							right_margin = raw_convert<int>(event[i]);
 						}
 					} else if (event_format[i] == "Text") {
-- 
2.43.0


From c8444d83e2adb1e683fbd042847c5ea681f31f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:00 +0000
Subject: [PATCH 18/44] fix: do not take SSA scale, spacing and clip tags for
 size and colour ones

---
 src/ssa_reader.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ssa_reader.cc b/src/ssa_reader.cc
index 8c16dfb..4f890de 100644
--- a/src/ssa_reader.cc
+++ b/src/ssa_reader.cc
@@ -283,10 +283,10 @@ SSAReader::parse_tag(RawSubtitle& sub, string tag, Context const& context)
 		sub.horizontal_position.proportional = raw_convert<float>(bits[1]) / context.play_res_x;
 		sub.vertical_position.reference = sub::TOP_OF_SCREEN;
 		sub.vertical_position.proportional = raw_convert<float>(bits[2]) / context.play_res_y;
-	} else if (boost::starts_with(tag, "\\fs")) {
+	} else if (boost::starts_with(tag, "\\fs") && !boost::starts_with(tag, "\\fsc") && !boost::starts_with(tag, "\\fsp")) {
 		SUB_ASSERT (tag.length() > 3);
 		sub.font_size.set_proportional(raw_convert<float>(tag.substr(3)) / context.play_res_y);
-	} else if (boost::starts_with(tag, "\\c")) {
+	} else if (boost::starts_with(tag, "\\c") && !boost::starts_with(tag, "\\clip")) {
 		/* \c&Hbbggrr& */
 		if (tag.length() > 2) {
 			sub.colour = h_colour(tag.substr(2, tag.length() - 3));
-- 
2.43.0


From aa298959576213ade5e6493609d6f20310e47156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:22 +0000
Subject: [PATCH 19/44] fix: join the text of binary STL extension blocks on to
 that of their subtitle

---
 src/stl_binary_reader.cc | 61 ++++++++++++++++++++++++++++++++--------
 1 file changed, 50 insertions(+), 11 deletions(-)

diff --git a/src/stl_binary_reader.cc b/src/stl_binary_reader.cc
index 36b400b..b9f0a5b 100644
--- a/src/stl_binary_reader.cc
+++ b/src/stl_binary_reader.cc
@@ -127,6 +127,37 @@ private:
 	FILE* _in;
 };
 
+/** The parts of a TTI block that we are interested in */
+class TTIBlock
+{
+public:
+	TTIBlock (shared_ptr<const InputReader> reader, int frame_rate)
+		: number (reader->get_int(1, 2))
+		, extension (reader->get_int(3, 1))
+		, from (reader->get_timecode(5, frame_rate))
+		, to (reader->get_timecode(9, frame_rate))
+		, line (reader->get_int(13, 1))
+		, justification (reader->get_int(14, 1))
+		, text (reader->get_string(16, 112))
+	{
+
+	}
+
+	/** @return true if the text of another block follows on from ours */
+	bool continued_by (TTIBlock const& other) const
+	{
+		return extension < 0xf0 && number == other.number && from == other.from && to == other.to;
+	}
+
+	int number;
+	int extension;
+	Time from;
+	Time to;
+	int line;
+	int justification;
+	string text;
+};
+
 }
 
 STLBinaryReader::STLBinaryReader (istream& in)
@@ -185,7 +216,8 @@ void STLBinaryReader::read (shared_ptr<InputReader> reader)
 	editor_name = reader->get_string(309, 32);
 	editor_contact_details = reader->get_string(341, 32);
 
-	int highest_line = 0;
+	/* Text in extension blocks is joined on to that of the block that it extends */
+	vector<TTIBlock> blocks;
 	for (int i = 0; i < tti_blocks; ++i) {
 
 		reader->read (128, "TTI");
@@ -194,11 +226,22 @@ void STLBinaryReader::read (shared_ptr<InputReader> reader)
 			continue;
 		}
 
-		string const whole = reader->get_string(16, 112);
+		TTIBlock const block (reader, frame_rate);
+		if (!blocks.empty() && blocks.back().continued_by(block)) {
+			trim_right_if (blocks.back().text, is_any_of ("\x8f"));
+			blocks.back().text += block.text;
+			blocks.back().extension = block.extension;
+		} else {
+			blocks.push_back (block);
+		}
+	}
+
+	int highest_line = 0;
+	for (auto const& block: blocks) {
 
 		/* Split the text up into lines (8Ah is a new line) */
 		vector<string> lines;
-		split (lines, whole, is_any_of ("\x8a"));
+		split (lines, block.text, is_any_of ("\x8a"));
 
 		/* Italic / underline specifications can span lines, so we need to track them
 		   outside the lines loop.
@@ -208,12 +251,9 @@ void STLBinaryReader::read (shared_ptr<InputReader> reader)
 
 		for (size_t j = 0; j < lines.size(); ++j) {
 			RawSubtitle sub;
-			sub.from = reader->get_timecode(5, frame_rate);
-			sub.to = reader->get_timecode(9, frame_rate);
-			/* XXX: vertical position of TTI extension blocks should be ignored (spec page 10) so this
-			 * is wrong if the EBN of this TTI block is not 255 (I think).
-			 */
-			sub.vertical_position.line = reader->get_int(13, 1) + j;
+			sub.from = block.from;
+			sub.to = block.to;
+			sub.vertical_position.line = block.line + j;
 			highest_line = std::max(highest_line, *sub.vertical_position.line);
 			sub.vertical_position.lines = maximum_rows;
 			sub.vertical_position.reference = TOP_OF_SCREEN;
@@ -221,8 +261,7 @@ void STLBinaryReader::read (shared_ptr<InputReader> reader)
 			sub.underline = underline;
 
 			/* XXX: not sure what to do with JC = 0, "unchanged presentation" */
-			int const h = reader->get_int(14, 1);
-			switch (h) {
+			switch (block.justification) {
 			case 0:
 			case 2:
 				sub.horizontal_position.reference = HORIZONTAL_CENTRE_OF_SCREEN;
-- 
2.43.0


From 77574e753285c0c7cf77e8ab515857b04e238603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:08 +0000
Subject: [PATCH 20/44] fix: make dumpsubs report failure to write its output

---
 tools/dumpsubs.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tools/dumpsubs.cc b/tools/dumpsubs.cc
index cf7008e..b87c416 100644
--- a/tools/dumpsubs.cc
+++ b/tools/dumpsubs.cc
@@ -80,5 +80,11 @@ main (int argc, char* argv[])
 
 	sub::dump (reader, cout);
 
+	cout.flush ();
+	if (!cout) {
+		cerr << argv[0] << ": could not write subtitles\n";
+		exit (EXIT_FAILURE);
+	}
+
 	return 0;
 }
-- 
2.43.0


From 6462d2b3a8e08ddf7455da4786e8d76865bc9bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:19 +0000
Subject: [PATCH 21/44] fix: do not apply SSA tags in SubRip files to the text
 before them

---
 src/subrip_reader.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/subrip_reader.cc b/src/subrip_reader.cc
index 2991f36..80bf97a 100644
--- a/src/subrip_reader.cc
+++ b/src/subrip_reader.cc
@@ -309,6 +309,7 @@ SubripReader::convert_line(int line_number, string t, RawSubtitle& p)
 				++i;
 			}
 			++i;
+			maybe_content (p);
 			SSAReader::parse_tag(p, ssa, SSAReader::Context{288, 288, Colour(1, 1, 1)});
 		} else {
 			p.text += t[i];
-- 
2.43.0


From 796bb6e92e23835b52797f7bdb3ce60e7b605e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:21 +0000
Subject: [PATCH 22/44] fix: do not take text STL files for binary ones because
 of an early mention of STL

---
 src/reader_factory.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reader_factory.cc b/src/reader_factory.cc
index 3c00ca5..33b0552 100644
--- a/src/reader_factory.cc
+++ b/src/reader_factory.cc
@@ -44,7 +44,7 @@ sub::reader_factory (boost::filesystem::path file_name)
 		char buffer[11];
 		f.read (buffer, 11);
 		f.seekg (0);
-		if (f.gcount() == 11 && buffer[3] == 'S' && buffer[4] == 'T' && buffer[5] == 'L') {
+		if (f.gcount() == 11 && buffer[3] == 'S' && buffer[4] == 'T' && buffer[5] == 'L' && string(buffer + 8, 3) == ".01") {
 			return shared_ptr<Reader> (new STLBinaryReader (f));
 		} else {
 			return shared_ptr<Reader> (new STLTextReader (f));
-- 
2.43.0


From 3807a085375d110379f6a0a77edd22aa692bd4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:25 +0000
Subject: [PATCH 23/44] fix: carry into the seconds when rounding times in
 binary STL files

---
 src/stl_binary_writer.cc | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/stl_binary_writer.cc b/src/stl_binary_writer.cc
index 8696ac2..a9158e5 100644
--- a/src/stl_binary_writer.cc
+++ b/src/stl_binary_writer.cc
@@ -146,6 +146,24 @@ vertical_position (sub::Line const & line)
 	return vp;
 }
 
+/** Write a timecode, rounding it to the nearest frame */
+static void
+put_timecode (char* p, Time const& time, float frames_per_second)
+{
+	int seconds = time.hours() * 3600 + time.minutes() * 60 + time.seconds();
+	int frames = time.frames_at (sub::Rational(frames_per_second * 1000, 1000));
+	if (frames >= rint(frames_per_second)) {
+		/* We rounded up to the next second */
+		frames = 0;
+		++seconds;
+	}
+
+	put_int_as_int (p + 0, seconds / 3600, 1);
+	put_int_as_int (p + 1, (seconds / 60) % 60, 1);
+	put_int_as_int (p + 2, seconds % 60, 1);
+	put_int_as_int (p + 3, frames, 1);
+}
+
 vector<string>
 make_tti_blocks (vector<Subtitle> const& subtitles, STLBinaryTables const& tables, float frames_per_second)
 {
@@ -231,15 +249,9 @@ make_tti_blocks (vector<Subtitle> const& subtitles, STLBinaryTables const& table
 		/* Cumulative status */
 		put_int_as_int (buffer + 4, tables.cumulative_status_enum_to_file (CUMULATIVE_STATUS_NOT_CUMULATIVE), 1);
 		/* Time code in */
-		put_int_as_int (buffer + 5, i.from.hours(), 1);
-		put_int_as_int (buffer + 6, i.from.minutes(), 1);
-		put_int_as_int (buffer + 7, i.from.seconds(), 1);
-		put_int_as_int (buffer + 8, i.from.frames_at(sub::Rational(frames_per_second * 1000, 1000)), 1);
+		put_timecode (buffer + 5, i.from, frames_per_second);
 		/* Time code out */
-		put_int_as_int (buffer + 9, i.to.hours(), 1);
-		put_int_as_int (buffer + 10, i.to.minutes(), 1);
-		put_int_as_int (buffer + 11, i.to.seconds(), 1);
-		put_int_as_int (buffer + 12, i.to.frames_at(sub::Rational(frames_per_second * 1000, 1000)), 1);
+		put_timecode (buffer + 9, i.to, frames_per_second);
 		/* Vertical position */
 		put_int_as_int (buffer + 13, top.get(), 1);
 
-- 
2.43.0


From 8573e99c78d9c6cc6625435c53fe79c7e88c0b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:19 +0000
Subject: [PATCH 24/44] fix: don't write buffered data twice to a binary STL
 file when a write fails

---
 src/stl_binary_writer.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/stl_binary_writer.cc b/src/stl_binary_writer.cc
index a9158e5..1045bc1 100644
--- a/src/stl_binary_writer.cc
+++ b/src/stl_binary_writer.cc
@@ -395,7 +395,12 @@ sub::write_stl_binary (
 	put_string (buffer + 309, 32, editor_name);
 	put_string (buffer + 341, 32, editor_contact_details);
 
-	ofstream output (file_name.string().c_str());
+	/* Don't buffer, otherwise after a failed write close() would write the whole
+	   buffer again, after whatever part of it has already reached the file.
+	*/
+	ofstream output;
+	output.rdbuf()->pubsetbuf (nullptr, 0);
+	output.open (file_name.string().c_str());
 	output.write (buffer, 1024);
 	for (auto const& i: tti_blocks) {
 		output.write (i.data(), i.length());
-- 
2.43.0


From 5f62fdf503c4f20ccbacd597aee6f61e6f0291d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:19 +0000
Subject: [PATCH 25/44] fix: allow any number of settings on a WebVTT cue

---
 src/web_vtt_reader.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/web_vtt_reader.cc b/src/web_vtt_reader.cc
index 2105743..3a81490 100644
--- a/src/web_vtt_reader.cc
+++ b/src/web_vtt_reader.cc
@@ -100,7 +100,7 @@ WebVTTReader::read(std::function<optional<string> ()> get_line)
 				vector<string> parts;
 				boost::algorithm::split(parts, *line, boost::algorithm::is_any_of(" "), boost::token_compress_on);
 
-				if (parts.size() != 3 && parts.size() != 7) {
+				if (parts.size() < 3) {
 					for (int i = 0; i < 2; ++i) {
 						auto ex = get_line();
 						if (ex) {
-- 
2.43.0


From 05806e5478a23ef72ecc751a56442ae671ea825d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:19 +0000
Subject: [PATCH 26/44] fix: do not take WebVTT identifiers which start with
 NOTE for comments

---
 src/web_vtt_reader.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/web_vtt_reader.cc b/src/web_vtt_reader.cc
index 3a81490..61b81df 100644
--- a/src/web_vtt_reader.cc
+++ b/src/web_vtt_reader.cc
@@ -91,7 +91,7 @@ WebVTTReader::read(std::function<optional<string> ()> get_line)
 			state = State::DATA;
 			break;
 		case State::DATA:
-			if (boost::starts_with(*line, "NOTE")) {
+			if (*line == "NOTE" || boost::starts_with(*line, "NOTE ") || boost::starts_with(*line, "NOTE\t")) {
 				state = State::NOTE;
 			} else if (line->find("-->") != string::npos) {
 				/* Further trim this line, removing spaces from the end */
-- 
2.43.0


From c3a69de411b2fff82d53a27cd4494503c996eb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:19 +0000
Subject: [PATCH 27/44] fix: allow tabs in WebVTT timing lines

---
 src/web_vtt_reader.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/web_vtt_reader.cc b/src/web_vtt_reader.cc
index 61b81df..dd4a6e7 100644
--- a/src/web_vtt_reader.cc
+++ b/src/web_vtt_reader.cc
@@ -94,11 +94,11 @@ WebVTTReader::read(std::function<optional<string> ()> get_line)
 			if (*line == "NOTE" || boost::starts_with(*line, "NOTE ") || boost::starts_with(*line, "NOTE\t")) {
 				state = State::NOTE;
 			} else if (line->find("-->") != string::npos) {
-				/* Further trim this line, removing spaces from the end */
-				trim_right_if(*line, boost::is_any_of(" "));
+				/* Further trim this line, removing spaces and tabs from the end */
+				trim_right_if(*line, boost::is_any_of(" \t"));
 
 				vector<string> parts;
-				boost::algorithm::split(parts, *line, boost::algorithm::is_any_of(" "), boost::token_compress_on);
+				boost::algorithm::split(parts, *line, boost::algorithm::is_any_of(" \t"), boost::token_compress_on);
 
 				if (parts.size() < 3) {
 					for (int i = 0; i < 2; ++i) {
-- 
2.43.0


From 5ba0cee7fb67d4bcead63546b69d96b649fcebd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:19 +0000
Subject: [PATCH 28/44] fix: allow WebVTT timestamps without hours

---
 src/web_vtt_reader.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/web_vtt_reader.cc b/src/web_vtt_reader.cc
index dd4a6e7..40b0dd6 100644
--- a/src/web_vtt_reader.cc
+++ b/src/web_vtt_reader.cc
@@ -26,6 +26,7 @@
 #include <boost/algorithm/string_regex.hpp>
 #include <boost/bind/bind.hpp>
 #include <boost/regex.hpp>
+#include <algorithm>
 #include <iostream>
 #include <vector>
 
@@ -37,6 +38,14 @@ using boost::optional;
 using namespace sub;
 
 
+/** @return a timestamp with its hours, which WebVTT allows to be left out */
+static string
+with_hours(string const& timestamp)
+{
+	return std::count(timestamp.begin(), timestamp.end(), ':') == 1 ? "00:" + timestamp : timestamp;
+}
+
+
 WebVTTReader::WebVTTReader(FILE* file)
 {
 	this->read(boost::bind(&get_line_file, file));
@@ -111,13 +120,13 @@ WebVTTReader::read(std::function<optional<string> ()> get_line)
 				}
 
 				string expected;
-				auto from = SubripReader::convert_time(parts[0], ".", &expected);
+				auto from = SubripReader::convert_time(with_hours(parts[0]), ".", &expected);
 				if (!from) {
 					throw WebVTTError(parts[0], expected, _context);
 				}
 				rs.from = *from;
 
-				auto to = SubripReader::convert_time(parts[2], ".", &expected);
+				auto to = SubripReader::convert_time(with_hours(parts[2]), ".", &expected);
 				if (!to) {
 					throw WebVTTError(parts[2], expected, _context);
 				}
-- 
2.43.0


From ac947ee6f7e8cdfd65ea9dbf82db2767912b4fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:51 +0000
Subject: [PATCH 29/44] fix: SSA styles without a PrimaryColour are white, not
 255 times white

---
 src/ssa_reader.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ssa_reader.cc b/src/ssa_reader.cc
index 4f890de..07d65b4 100644
--- a/src/ssa_reader.cc
+++ b/src/ssa_reader.cc
@@ -81,7 +81,7 @@ class Style
 public:
 	Style ()
 		: font_size (72)
-		, primary_colour (255, 255, 255)
+		, primary_colour (1, 1, 1)
 		, bold (false)
 		, italic (false)
 		, underline (false)
@@ -92,7 +92,7 @@ public:
 
 	Style (string format_line, string style_line)
 		: font_size (72)
-		, primary_colour (255, 255, 255)
+		, primary_colour (1, 1, 1)
 		, bold (false)
 		, italic (false)
 		, underline (false)
-- 
2.43.0


From d19b2da76ed7f7cbbcc51d3b17cc0cf6acad2b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:06 +0000
Subject: [PATCH 30/44] fix: ignore the contents of unknown sections in SSA
 files

---
 src/ssa_reader.cc | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/ssa_reader.cc b/src/ssa_reader.cc
index 07d65b4..dcd09ce 100644
--- a/src/ssa_reader.cc
+++ b/src/ssa_reader.cc
@@ -430,7 +430,8 @@ SSAReader::read (function<optional<string> ()> get_line)
 	enum {
 		INFO,
 		STYLES,
-		EVENTS
+		EVENTS,
+		OTHER
 	} part = INFO;
 
 	int play_res_x = 288;
@@ -460,10 +461,19 @@ SSAReader::read (function<optional<string> ()> get_line)
 				part = STYLES;
 			} else if (line.get() == "[Events]") {
 				part = EVENTS;
+			} else {
+				part = OTHER;
 			}
 			continue;
 		}
 
+		if (part == OTHER) {
+			/* A section that we don't know about, e.g. [Fonts] or [Graphics], which
+			   need not be made up of "type: body" lines.
+			*/
+			continue;
+		}
+
 		size_t const colon = line->find (":");
 		SUB_ASSERT (colon != string::npos);
 		string const type = line->substr (0, colon);
@@ -471,6 +481,8 @@ SSAReader::read (function<optional<string> ()> get_line)
 		trim (body);
 
 		switch (part) {
+		case OTHER:
+			break;
 		case INFO:
 			if (type == "PlayResX") {
 				play_res_x = raw_convert<int> (body);
-- 
2.43.0


From c2658e4455ded8a037953dc526414811c81eb5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:45 +0000
Subject: [PATCH 31/44] fix: use SSA vertical margins when \an moves a line
 away from its style's vertical centre

---
 src/ssa_reader.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/ssa_reader.cc b/src/ssa_reader.cc
index dcd09ce..d00f2a4 100644
--- a/src/ssa_reader.cc
+++ b/src/ssa_reader.cc
@@ -558,13 +558,11 @@ SSAReader::read (function<optional<string> ()> get_line)
 						sub.effect = style->effect;
 						sub.horizontal_position.reference = style->horizontal_reference;
 						sub.vertical_position.reference = style->vertical_reference;
-						if (sub.vertical_position.reference != sub::VERTICAL_CENTRE_OF_SCREEN) {
-							sub.vertical_position.proportional = float(style->vertical_margin) / play_res_y;
-						}
+						sub.vertical_position.proportional = float(style->vertical_margin) / play_res_y;
 						left_margin = style->left_margin;
 						right_margin = style->right_margin;
 					} else if (event_format[i] == "MarginV") {
-						if (raw_convert<float>(event[i]) != 0 && sub.vertical_position.reference != sub::VERTICAL_CENTRE_OF_SCREEN) {
+						if (raw_convert<float>(event[i]) != 0) {
 							/* Override the style if its non-zero */
 							sub.vertical_position.proportional = raw_convert<float>(event[i]) / play_res_y;
 						}
-- 
2.43.0


From 66fe4c3328cd0cada8091e65ca94a7c02bcc7f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:45 +0000
Subject: [PATCH 32/44] fix: don't count line breaks inside SSA override blocks

---
 src/ssa_reader.cc | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/ssa_reader.cc b/src/ssa_reader.cc
index d00f2a4..b537703 100644
--- a/src/ssa_reader.cc
+++ b/src/ssa_reader.cc
@@ -336,15 +336,7 @@ SSAReader::parse_line(RawSubtitle base, string line, Context const& context)
 		current.font_size.set_proportional(72.0 / context.play_res_y);
 	}
 
-	/* Count the number of line breaks */
 	int line_breaks = 0;
-	if (line.length() > 0) {
-		for (size_t i = 0; i < line.length() - 1; ++i) {
-			if (line[i] == '\\' && (line[i+1] == 'n' || line[i+1] == 'N')) {
-				++line_breaks;
-			}
-		}
-	}
 
 	/* There are vague indications that with ASS 1 point should equal 1 pixel */
 	double const line_size = current.font_size.proportional(context.play_res_y) * 1.2;
@@ -379,6 +371,7 @@ SSAReader::parse_line(RawSubtitle base, string line, Context const& context)
 			break;
 		case BACKSLASH:
 			if (c == 'n' || c == 'N') {
+				++line_breaks;
 				if (!current.text.empty ()) {
 					subs.push_back (current);
 					current.text = "";
-- 
2.43.0


From 67b5c00d7c3ca42fcc59e9ac0021c519b2d9105a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:45 +0000
Subject: [PATCH 33/44] fix: keep backslashes which are not part of an escape
 in SSA text

---
 src/ssa_reader.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/ssa_reader.cc b/src/ssa_reader.cc
index b537703..e3b15c8 100644
--- a/src/ssa_reader.cc
+++ b/src/ssa_reader.cc
@@ -382,12 +382,23 @@ SSAReader::parse_line(RawSubtitle base, string line, Context const& context)
 				} else {
 					current.vertical_position.proportional = current.vertical_position.proportional.get() + line_size;
 				}
+			} else if (c == 'h') {
+				/* Hard (non-breaking) space */
+				current.text += "\xc2\xa0";
+			} else {
+				/* Not an escape, so just a backslash; look at this character again as text */
+				current.text += '\\';
+				--i;
 			}
 			state = TEXT;
 			break;
 		}
 	}
 
+	if (state == BACKSLASH) {
+		current.text += '\\';
+	}
+
 	if (!current.text.empty ()) {
 		subs.push_back (current);
 	}
-- 
2.43.0


From 502be06364d989f54dd3034017fad80d39f5736a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:56 +0000
Subject: [PATCH 34/44] fix: ignore user data blocks in STL binary files

---
 src/stl_binary_reader.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/stl_binary_reader.cc b/src/stl_binary_reader.cc
index b9f0a5b..61fabea 100644
--- a/src/stl_binary_reader.cc
+++ b/src/stl_binary_reader.cc
@@ -222,6 +222,11 @@ void STLBinaryReader::read (shared_ptr<InputReader> reader)
 
 		reader->read (128, "TTI");
 
+		if (reader->get_int(3, 1) == 0xfe) {
+			/* User data, not a subtitle */
+			continue;
+		}
+
 		if (_tables.comment_file_to_enum (reader->get_int(15, 1)) == COMMENT_YES) {
 			continue;
 		}
-- 
2.43.0


From 173664139ed15f35e89fd3f09f069d9510055182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:48 +0000
Subject: [PATCH 35/44] fix: count characters, not bytes, and at most 99 of
 them, for binary STL's maximum row length

---
 src/stl_binary_writer.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stl_binary_writer.cc b/src/stl_binary_writer.cc
index 1045bc1..bac341e 100644
--- a/src/stl_binary_writer.cc
+++ b/src/stl_binary_writer.cc
@@ -342,7 +342,7 @@ sub::write_stl_binary (
 		for (auto const& j: i.lines) {
 			int t = 0;
 			for (auto const& k: j.blocks) {
-				t += k.text.size ();
+				t += utf_to_utf<wchar_t>(k.text).size();
 			}
 			longest = std::max (longest, t);
 		}
@@ -377,7 +377,7 @@ sub::write_stl_binary (
 	/* Total number of subtitle groups */
 	put_string (buffer + 248, "001");
 	/* Maximum number of displayable characters in any text row */
-	put_int_as_string (buffer + 251, longest, 2);
+	put_int_as_string (buffer + 251, std::min(longest, 99), 2);
 	/* Maximum number of displayable rows */
 	put_int_as_string (buffer + 253, ROWS, 2);
 	/* Time code status */
-- 
2.43.0


From d651238ff58800e7ff8a427a985e5cfe17ac7e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:57 +0000
Subject: [PATCH 36/44] fix: put combining diacriticals before their letters
 when writing ISO6937

---
 src/iso6937.cc | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/iso6937.cc b/src/iso6937.cc
index 13fb702..1a6e625 100644
--- a/src/iso6937.cc
+++ b/src/iso6937.cc
@@ -101,11 +101,22 @@ sub::utf16_to_iso6937 (wstring s)
 	/* XXX: slow */
 
 	string o;
+	/* Last thing that we wrote, if it was a character without a diacritical */
+	optional<char> base;
 	for (size_t i = 0; i < s.size(); ++i) {
 		optional<char> c = find (iso6937::main, s[i]);
-		if (c) {
+		auto const diacritical = c ? iso6937::diacriticals.find(*c) : iso6937::diacriticals.end();
+		if (diacritical != iso6937::diacriticals.end()) {
+			/* This is a combining character; in ISO6937 it comes before the letter that it goes with */
+			if (base && diacritical->second->find(*base) != diacritical->second->end()) {
+				o.insert (o.length() - 1, 1, *c);
+			}
+			base = boost::none;
+		} else if (c) {
 			o += c.get ();
+			base = c;
 		} else {
+			base = boost::none;
 			for (map<char, map<char, wchar_t> *>::const_iterator j = iso6937::diacriticals.begin(); j != iso6937::diacriticals.end(); ++j) {
 				c = find (*(j->second), s[i]);
 				if (c) {
-- 
2.43.0


From 1cb26512b47f44dea1c55862881216388a24c0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:57 +0000
Subject: [PATCH 37/44] fix: write subtitles from SubRip, WebVTT and text STL
 files, whose position on screen is unknown, to binary STL

---
 src/stl_binary_writer.cc | 44 +++++++++++++++++++++++++++++++++-------
 1 file changed, 37 insertions(+), 7 deletions(-)

diff --git a/src/stl_binary_writer.cc b/src/stl_binary_writer.cc
index bac341e..bbbe679 100644
--- a/src/stl_binary_writer.cc
+++ b/src/stl_binary_writer.cc
@@ -41,7 +41,9 @@ using std::ofstream;
 using std::string;
 using std::setw;
 using std::setfill;
+using std::make_pair;
 using std::max;
+using std::pair;
 using std::cout;
 using std::vector;
 using boost::locale::conv::utf_to_utf;
@@ -108,6 +110,13 @@ put_int_as_int (char* p, int v, unsigned int n)
 	}
 }
 
+/** @return true if we don't know where this line should be on screen, only where it is within its subtitle */
+static bool
+relative_to_subtitle (sub::Line const & line)
+{
+	return line.vertical_position.reference.get_value_or(TOP_OF_SCREEN) == TOP_OF_SUBTITLE;
+}
+
 static int
 vertical_position (sub::Line const & line)
 {
@@ -126,6 +135,9 @@ vertical_position (sub::Line const & line)
 		default:
 			break;
 		}
+	} else if (line.vertical_position.line && relative_to_subtitle(line)) {
+		/* This is a number of lines down from the top of the subtitle */
+		vp = line.vertical_position.line.get();
 	} else if (line.vertical_position.line) {
 		float const prop = float (line.vertical_position.line.get()) / line.vertical_position.lines.get ();
 		switch (line.vertical_position.reference.get_value_or (TOP_OF_SCREEN)) {
@@ -175,12 +187,30 @@ make_tti_blocks (vector<Subtitle> const& subtitles, STLBinaryTables const& table
 
 	for (auto const& i: subtitles) {
 
+		/* Find the vertical position of each line */
+		vector<pair<int, sub::Line const *>> lines;
+		int next_relative = 0;
+		for (auto const& j: i.lines) {
+			int vp = vertical_position (j);
+			if (relative_to_subtitle(j)) {
+				vp = max(vp, next_relative);
+				next_relative = vp + 1;
+			}
+			lines.push_back (make_pair(vp, &j));
+		}
+
+		/* If we are not told where on the screen the subtitle should be, put it at the bottom */
+		for (auto& j: lines) {
+			if (relative_to_subtitle(*j.second)) {
+				j.first += max(ROWS - next_relative, 0);
+			}
+		}
+
 		/* Find the top vertical position of this subtitle */
 		optional<int> top;
-		for (auto const& j: i.lines) {
-			int const vp = vertical_position (j);
-			if (!top || vp < top.get ()) {
-				top = vp;
+		for (auto const& j: lines) {
+			if (!top || j.first < top.get ()) {
+				top = j.first;
 			}
 		}
 
@@ -190,10 +220,10 @@ make_tti_blocks (vector<Subtitle> const& subtitles, STLBinaryTables const& table
 		bool underline = false;
 		optional<int> last_vp;
 
-		for (auto const& j: i.lines) {
+		for (auto const& j: lines) {
 
 			/* CR/LF down to this line */
-			int const vp = vertical_position (j);
+			int const vp = j.first;
 
 			if (last_vp) {
 				for (int k = last_vp.get(); k < vp; ++k) {
@@ -203,7 +233,7 @@ make_tti_blocks (vector<Subtitle> const& subtitles, STLBinaryTables const& table
 
 			last_vp = vp;
 
-			for (auto const& k: j.blocks) {
+			for (auto const& k: j.second->blocks) {
 				if (k.underline && !underline) {
 					text += "\x82";
 					underline = true;
-- 
2.43.0


From ee821019dff012ba7c77dad911d025fd1d0017cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:57 +0000
Subject: [PATCH 38/44] fix: don't run lines together when their positions come
 to the same row of a binary STL file

---
 src/stl_binary_writer.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/stl_binary_writer.cc b/src/stl_binary_writer.cc
index bbbe679..e1b0ab5 100644
--- a/src/stl_binary_writer.cc
+++ b/src/stl_binary_writer.cc
@@ -30,6 +30,7 @@
 #include "sub_assert.h"
 #include <boost/locale.hpp>
 #include <boost/algorithm/string.hpp>
+#include <algorithm>
 #include <cmath>
 #include <fstream>
 #include <iomanip>
@@ -206,6 +207,15 @@ make_tti_blocks (vector<Subtitle> const& subtitles, STLBinaryTables const& table
 			}
 		}
 
+		/* Lines go down the screen, and there's only room for one of them on each row */
+		std::stable_sort (
+			lines.begin(), lines.end(),
+			[](pair<int, sub::Line const *> const& a, pair<int, sub::Line const *> const& b) { return a.first < b.first; }
+			);
+		for (size_t j = 1; j < lines.size(); ++j) {
+			lines[j].first = max(lines[j].first, lines[j - 1].first + 1);
+		}
+
 		/* Find the top vertical position of this subtitle */
 		optional<int> top;
 		for (auto const& j: lines) {
-- 
2.43.0


From 7c254ac0213d87fe939814c1a0a963a15a5d4ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:57 +0000
Subject: [PATCH 39/44] fix: keep lines whose position is off the screen on it
 when writing binary STL

---
 src/stl_binary_writer.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/stl_binary_writer.cc b/src/stl_binary_writer.cc
index e1b0ab5..8db87e9 100644
--- a/src/stl_binary_writer.cc
+++ b/src/stl_binary_writer.cc
@@ -156,7 +156,8 @@ vertical_position (sub::Line const & line)
 		}
 	}
 
-	return vp;
+	/* Keep things which would be off the screen on its edge */
+	return max(0, std::min(vp, ROWS));
 }
 
 /** Write a timecode, rounding it to the nearest frame */
-- 
2.43.0


From 0ffc73df26341e807bc546868daec330b2919401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:57 +0000
Subject: [PATCH 40/44] fix: don't write bad extension block numbers for very
 long subtitles to binary STL

---
 src/stl_binary_writer.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/stl_binary_writer.cc b/src/stl_binary_writer.cc
index 8db87e9..fbf44c9 100644
--- a/src/stl_binary_writer.cc
+++ b/src/stl_binary_writer.cc
@@ -323,6 +323,9 @@ make_tti_blocks (vector<Subtitle> const& subtitles, STLBinaryTables const& table
 			offset += this_time;
 
 			/* Extension block number.  Count up from 0 but use 0xff for the last one */
+			if (offset < text.length() && block_number >= 0xf0) {
+				throw STLError ("Subtitle is too long for a binary STL file");
+			}
 			put_int_as_int (buffer + 3, offset == text.length() ? 0xff : block_number, 1);
 			++block_number;
 
-- 
2.43.0


From b1cc5849786ef273a2a63abccca7f7aa764342d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:37 +0000
Subject: [PATCH 41/44] fix: don't move some lines up by one row when writing
 binary STL

---
 src/stl_binary_writer.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/stl_binary_writer.cc b/src/stl_binary_writer.cc
index fbf44c9..d861e55 100644
--- a/src/stl_binary_writer.cc
+++ b/src/stl_binary_writer.cc
@@ -143,13 +143,13 @@ vertical_position (sub::Line const & line)
 		float const prop = float (line.vertical_position.line.get()) / line.vertical_position.lines.get ();
 		switch (line.vertical_position.reference.get_value_or (TOP_OF_SCREEN)) {
 		case TOP_OF_SCREEN:
-			vp = prop * ROWS;
+			vp = rint (prop * ROWS);
 			break;
 		case VERTICAL_CENTRE_OF_SCREEN:
-			vp = (prop + 0.5) * ROWS;
+			vp = rint ((prop + 0.5) * ROWS);
 			break;
 		case BOTTOM_OF_SCREEN:
-			vp = (1 - prop) * ROWS;
+			vp = rint ((1 - prop) * ROWS);
 			break;
 		default:
 			break;
-- 
2.43.0


From 3de3cdd2fd3dcc4f82d995487d0ad685ae13240c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:54 +0000
Subject: [PATCH 42/44] fix: write SubRip subtitles with an alignment tag to
 binary STL

---
 src/stl_binary_writer.cc | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/stl_binary_writer.cc b/src/stl_binary_writer.cc
index d861e55..cde365a 100644
--- a/src/stl_binary_writer.cc
+++ b/src/stl_binary_writer.cc
@@ -115,7 +115,8 @@ put_int_as_int (char* p, int v, unsigned int n)
 static bool
 relative_to_subtitle (sub::Line const & line)
 {
-	return line.vertical_position.reference.get_value_or(TOP_OF_SCREEN) == TOP_OF_SUBTITLE;
+	auto const& vp = line.vertical_position;
+	return vp.reference.get_value_or(TOP_OF_SCREEN) == TOP_OF_SUBTITLE || (vp.line && !vp.lines && !vp.proportional);
 }
 
 static int
@@ -192,19 +193,29 @@ make_tti_blocks (vector<Subtitle> const& subtitles, STLBinaryTables const& table
 		/* Find the vertical position of each line */
 		vector<pair<int, sub::Line const *>> lines;
 		int next_relative = 0;
+		VerticalReference relative_reference = TOP_OF_SUBTITLE;
 		for (auto const& j: i.lines) {
 			int vp = vertical_position (j);
 			if (relative_to_subtitle(j)) {
 				vp = max(vp, next_relative);
 				next_relative = vp + 1;
+				if (relative_reference == TOP_OF_SUBTITLE) {
+					relative_reference = j.vertical_position.reference.get_value_or(TOP_OF_SCREEN);
+				}
 			}
 			lines.push_back (make_pair(vp, &j));
 		}
 
 		/* If we are not told where on the screen the subtitle should be, put it at the bottom */
+		int offset_of_relative = max(ROWS - next_relative, 0);
+		if (relative_reference == TOP_OF_SCREEN) {
+			offset_of_relative = 0;
+		} else if (relative_reference == VERTICAL_CENTRE_OF_SCREEN) {
+			offset_of_relative /= 2;
+		}
 		for (auto& j: lines) {
 			if (relative_to_subtitle(*j.second)) {
-				j.first += max(ROWS - next_relative, 0);
+				j.first += offset_of_relative;
 			}
 		}
 
-- 
2.43.0


From aa1c4c292ea800adad128c8ab0d5186b0e4580a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:54 +0000
Subject: [PATCH 43/44] fix: compare times at different frame rates correctly

---
 src/sub_time.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sub_time.cc b/src/sub_time.cc
index 763b4e4..f1c2838 100644
--- a/src/sub_time.cc
+++ b/src/sub_time.cc
@@ -47,7 +47,7 @@ sub::operator< (sub::Time const & a, sub::Time const & b)
 		throw UnknownFrameRateError ();
 	}
 
-	return (a._frames * a._rate.get().numerator * b._rate.get().denominator) < (b._frames * b._rate.get().numerator * a._rate.get().denominator);
+	return (int64_t(a._frames) * a._rate->denominator * b._rate->numerator) < (int64_t(b._frames) * b._rate->denominator * a._rate->numerator);
 }
 
 bool
@@ -66,7 +66,7 @@ sub::operator> (sub::Time const & a, sub::Time const & b)
 		throw UnknownFrameRateError ();
 	}
 
-	return (a._frames * a._rate.get().numerator * b._rate.get().denominator) > (b._frames * b._rate.get().numerator * a._rate.get().denominator);
+	return (int64_t(a._frames) * a._rate->denominator * b._rate->numerator) > (int64_t(b._frames) * b._rate->denominator * a._rate->numerator);
 }
 
 bool
@@ -85,7 +85,7 @@ sub::operator== (sub::Time const & a, sub::Time const & b)
 		return false;
 	}
 
-	return (a._frames * a._rate.get().numerator * b._rate.get().denominator) == (b._frames * b._rate.get().numerator * a._rate.get().denominator);
+	return (int64_t(a._frames) * a._rate->denominator * b._rate->numerator) == (int64_t(b._frames) * b._rate->denominator * a._rate->numerator);
 }
 
 bool
-- 
2.43.0


From 54b0c99eebceb8445dddd759fbf89e48357c99b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:25:37 +0000
Subject: [PATCH 44/44] fix: refuse to write more blocks than a binary STL
 header can count

With 100000 blocks or more the count did not fit its field, so the file said
it had a tenth of its blocks and the rest of the subtitles were never read.
---
 src/stl_binary_writer.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/stl_binary_writer.cc b/src/stl_binary_writer.cc
index cde365a..69d1640 100644
--- a/src/stl_binary_writer.cc
+++ b/src/stl_binary_writer.cc
@@ -404,6 +404,10 @@ sub::write_stl_binary (
 	}
 
 	vector<string> tti_blocks = make_tti_blocks (subtitles, tables, frames_per_second);
+	/* The header has 5 digits for the number of blocks */
+	if (tti_blocks.size() > 99999) {
+		throw STLError ("Too many subtitles for a binary STL file");
+	}
 
 	/* Code page: 850 */
 	put_string (buffer + 0, "850");
-- 
2.43.0

