From bd7df56dfeb01068f5cc785ac44d09edf68d393a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:54 +0000
Subject: [PATCH 01/21] fix: loading a file without final newline could loop
 forever

At the end of the stream std::getline() does not touch its argument, so
the last line was seen again and again when it was a comment, a string
continuation or a msgstr[N].
---
 src/po_parser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/po_parser.cpp b/src/po_parser.cpp
index ff56796..cfda1b5 100644
--- a/src/po_parser.cpp
+++ b/src/po_parser.cpp
@@ -89,7 +89,12 @@ POParser::next_line()
 {
   line_number += 1;
   if (!std::getline(in, current_line))
+  {
+    // getline() leaves the previous line in place at the end of the
+    // stream, it must not be seen a second time
+    current_line.clear();
     eof = true;
+  }
 }
 
 void
-- 
2.43.0


From 36d658c2f1105717e42edb0061295e7a6719ce9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:54 +0000
Subject: [PATCH 02/21] fix: read errors were taken for the end of the file

A failing read ended the file silently, and the message being read was
added with its text cut short. Report it to the caller instead.
---
 src/po_parser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/po_parser.cpp b/src/po_parser.cpp
index cfda1b5..fb88d60 100644
--- a/src/po_parser.cpp
+++ b/src/po_parser.cpp
@@ -23,6 +23,7 @@
 #include <ctype.h>
 #include <string>
 #include <istream>
+#include <stdexcept>
 #include <string.h>
 #include <unordered_map>
 #include <stdlib.h>
@@ -94,6 +95,9 @@ POParser::next_line()
     // stream, it must not be seen a second time
     current_line.clear();
     eof = true;
+
+    if (in.bad())
+      throw std::runtime_error("read error");
   }
 }
 
-- 
2.43.0


From 26727115f56e9c375000fd3e6704e02d241deb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:54 +0000
Subject: [PATCH 03/21] fix: an error found at an entry's last line lost the
 next entry

When the error is noticed at the empty line that ends the broken entry,
the parser already is where it wants to resume.
---
 src/po_parser.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/po_parser.cpp b/src/po_parser.cpp
index fb88d60..a64de71 100644
--- a/src/po_parser.cpp
+++ b/src/po_parser.cpp
@@ -78,9 +78,8 @@ POParser::error(const std::string& msg)
   log_error << filename << ":" << line_number << ": error: " << msg  << ": " << current_line << std::endl;
 
   // Try to recover from an error by searching for start of another entry
-  do
+  while(!eof && !is_empty_line())
     next_line();
-  while(!eof && !is_empty_line());
 
   throw POParserError();
 }
-- 
2.43.0


From a3d83eacabb0ecae3cdaa5f331b562d985e6d50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:54 +0000
Subject: [PATCH 04/21] fix: strings were silently truncated when running out
 of memory

---
 src/po_parser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/po_parser.cpp b/src/po_parser.cpp
index a64de71..4ff9a6f 100644
--- a/src/po_parser.cpp
+++ b/src/po_parser.cpp
@@ -172,6 +172,7 @@ std::string
 POParser::get_string(unsigned int skip)
 {
   std::ostringstream out;
+  out.exceptions(std::ostringstream::badbit); // don't drop characters when out of memory
 
   if (skip+1 >= static_cast<unsigned int>(current_line.size()))
     error("unexpected end of line");
-- 
2.43.0


From 0b2e93d5f03a3bfc36109966268aba42395c67d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:54 +0000
Subject: [PATCH 05/21] fix: report catalogues that cannot be opened

UnixFileSystem::open_file() never returns a null pointer, a stream that
failed to open went unnoticed.
---
 src/dictionary_manager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dictionary_manager.cpp b/src/dictionary_manager.cpp
index 6175d76..cd02bc6 100644
--- a/src/dictionary_manager.cpp
+++ b/src/dictionary_manager.cpp
@@ -156,7 +156,7 @@ DictionaryManager::get_dictionary(const Language& language)
         try
         {
           std::unique_ptr<std::istream> in = filesystem->open_file(pofile);
-          if (!in)
+          if (!in || !*in)
           {
             log_error << "error: failure opening: " << pofile << std::endl;
           }
-- 
2.43.0


From 3f8a671117ffb47bb923d3edb4930c3d4b274e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:54 +0000
Subject: [PATCH 06/21] fix: choice between equally good catalogues depended on
 directory order

---
 src/dictionary_manager.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dictionary_manager.cpp b/src/dictionary_manager.cpp
index cd02bc6..376f053 100644
--- a/src/dictionary_manager.cpp
+++ b/src/dictionary_manager.cpp
@@ -141,7 +141,9 @@ DictionaryManager::get_dictionary(const Language& language)
           {
             int score = Language::match(language, po_language);
 
-            if (score > best_score)
+            // on a tie don't depend on the order of the directory listing
+            if (score > best_score ||
+                (score == best_score && *filename < best_filename))
             {
               best_score = score;
               best_filename = *filename;
-- 
2.43.0


From 3e6b67c0cb325e70ce76f28e4c148c77e202ca9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:54 +0000
Subject: [PATCH 07/21] fix: a request that failed left an incomplete
 dictionary in the cache

When listing a directory threw an exception, the next request for the
language silently got the empty or half loaded dictionary. The
dictionary also leaked when it could not be put into the cache.
---
 src/dictionary_manager.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/dictionary_manager.cpp b/src/dictionary_manager.cpp
index 376f053..32eb6ef 100644
--- a/src/dictionary_manager.cpp
+++ b/src/dictionary_manager.cpp
@@ -116,6 +116,16 @@ DictionaryManager::get_dictionary(const Language& language)
     //log_debug << "get_dictionary: " << lang << std::endl;
     Dictionary* dict = new Dictionary(charset);
 
+    // Forget the dictionary again if it can't be loaded completely
+    auto forget = [this, &language](Dictionary* d)
+    {
+      if (current_dict == d)
+        current_dict = nullptr;
+      dictionaries.erase(language);
+      delete d;
+    };
+    std::unique_ptr<Dictionary, decltype(forget)> guard(dict, forget);
+
     dictionaries[language] = dict;
 
     for (SearchPath::reverse_iterator p = search_path.rbegin(); p != search_path.rend(); ++p)
@@ -180,6 +190,7 @@ DictionaryManager::get_dictionary(const Language& language)
         // printf("Adding language fallback %s\n", language.get_language().c_str());
         dict->addFallback( &get_dictionary(Language::from_spec(language.get_language())) );
     }
+    guard.release();
     return *dict;
   }
 }
-- 
2.43.0


From f30ddf846c815c2ac83f28f57157d179380843ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:54 +0000
Subject: [PATCH 08/21] fix: don't drop the cache when the configuration change
 itself fails

---
 src/dictionary_manager.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dictionary_manager.cpp b/src/dictionary_manager.cpp
index 32eb6ef..4655ff5 100644
--- a/src/dictionary_manager.cpp
+++ b/src/dictionary_manager.cpp
@@ -234,8 +234,8 @@ DictionaryManager::get_language() const
 void
 DictionaryManager::set_charset(const std::string& charset_)
 {
-  clear_cache(); // changing charset invalidates cache
   charset = charset_;
+  clear_cache(); // changing charset invalidates cache
 }
 
 void
@@ -255,11 +255,11 @@ void
 DictionaryManager::add_directory(const std::string& pathname, bool precedence /* = false */)
 {
   if(std::find(search_path.begin(), search_path.end(), pathname) == search_path.end()) {
-    clear_cache(); // adding directories invalidates cache
     if(precedence)
       search_path.push_front(pathname);
     else
       search_path.push_back(pathname);
+    clear_cache(); // adding directories invalidates cache
   }
 }
 
-- 
2.43.0


From da9dc424f49eb444f015c9d64606971ae6cb28b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:54 +0000
Subject: [PATCH 09/21] fix: set_use_fuzzy() had no effect

---
 include/tinygettext/po_parser.hpp | 5 +++--
 src/dictionary_manager.cpp        | 2 +-
 src/po_parser.cpp                 | 4 ++--
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/tinygettext/po_parser.hpp b/include/tinygettext/po_parser.hpp
index 99c03aa..fcc4b9e 100644
--- a/include/tinygettext/po_parser.hpp
+++ b/include/tinygettext/po_parser.hpp
@@ -65,8 +65,9 @@ private:
 public:
   /** @param filename name of the istream, only used in error messages
       @param in stream from which the PO file is read.
-      @param dict dictionary to which the strings are written */
-  static void parse(const std::string& filename, std::istream& in, Dictionary& dict);
+      @param dict dictionary to which the strings are written
+      @param use_fuzzy whether entries marked as fuzzy are used */
+  static void parse(const std::string& filename, std::istream& in, Dictionary& dict, bool use_fuzzy = true);
   static bool pedantic;
 
 private:
diff --git a/src/dictionary_manager.cpp b/src/dictionary_manager.cpp
index 4655ff5..5120128 100644
--- a/src/dictionary_manager.cpp
+++ b/src/dictionary_manager.cpp
@@ -174,7 +174,7 @@ DictionaryManager::get_dictionary(const Language& language)
           }
           else
           {
-            POParser::parse(pofile, *in, *dict);
+            POParser::parse(pofile, *in, *dict, use_fuzzy);
           }
         }
         catch(std::exception& e)
diff --git a/src/po_parser.cpp b/src/po_parser.cpp
index 4ff9a6f..c3cade0 100644
--- a/src/po_parser.cpp
+++ b/src/po_parser.cpp
@@ -39,9 +39,9 @@ namespace tinygettext {
 bool POParser::pedantic = true;
 
 void
-POParser::parse(const std::string& filename, std::istream& in, Dictionary& dict)
+POParser::parse(const std::string& filename, std::istream& in, Dictionary& dict, bool use_fuzzy)
 {
-  POParser parser(filename, in, dict);
+  POParser parser(filename, in, dict, use_fuzzy);
   parser.parse();
 }
 
-- 
2.43.0


From 9396b095c3d767a913876eebc20b1bceebd9b89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:54 +0000
Subject: [PATCH 10/21] fix: get_languages() listed an undefined language for
 unknown files

It also ignored the country of files with a lower case name, which
get_dictionary() does load.
---
 src/dictionary_manager.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dictionary_manager.cpp b/src/dictionary_manager.cpp
index 5120128..bd508aa 100644
--- a/src/dictionary_manager.cpp
+++ b/src/dictionary_manager.cpp
@@ -208,7 +208,9 @@ DictionaryManager::get_languages()
     {
       if (has_suffix(*file, ".po"))
       {
-        languages.insert(Language::from_env(file->substr(0, file->size()-3)));
+        Language language = Language::from_env(convertFilename2Language(*file));
+        if (language)
+          languages.insert(language);
       }
     }
   }
-- 
2.43.0


From f0146097a4b382b8198102f2cb5a10f032336eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:54 +0000
Subject: [PATCH 11/21] fix: failing to deliver a log message terminated the
 program

---
 src/log.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/log.cpp b/src/log.cpp
index 531deb1..6afdd55 100644
--- a/src/log.cpp
+++ b/src/log.cpp
@@ -58,7 +58,14 @@ Log::Log(log_callback_t callback_) :
 
 Log::~Log()
 {
-  callback(out.str());
+  try
+  {
+    callback(out.str());
+  }
+  catch(...)
+  {
+    // failing to deliver a diagnostic must not terminate the program
+  }
 }
 
 std::ostream&
-- 
2.43.0


From 4ddbf0d88fce8a320a20895a96a8f6502dfae0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:54 +0000
Subject: [PATCH 12/21] fix: lookup tables were filled without protection on
 first use

Two threads filling the language, alias or plural form table at the
same time corrupted it, and an allocation failure left it incomplete
for the rest of the process.
---
 src/language.cpp     | 22 +++++++++++++---------
 src/plural_forms.cpp | 12 ++++++------
 2 files changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/language.cpp b/src/language.cpp
index e672915..5568c88 100644
--- a/src/language.cpp
+++ b/src/language.cpp
@@ -297,9 +297,9 @@ std::string
 resolve_language_alias(const std::string& name)
 {
   typedef std::unordered_map<std::string, std::string> Aliases;
-  static Aliases language_aliases;
-  if (language_aliases.empty())
+  static Aliases aliases = []()
   {
+    Aliases language_aliases;
     // FIXME: Many of those are not useful for us, since we leave
     // encoding to the app, not to the language, we could/should
     // also match against all language names, not just aliases from
@@ -353,15 +353,16 @@ resolve_language_alias(const std::string& name)
     language_aliases["swedish"]          = "sv_SE.ISO-8859-1";
     language_aliases["thai"]             = "th_TH.TIS-620";
     language_aliases["turkish"]          = "tr_TR.ISO-8859-9";
-  }
+    return language_aliases;
+  }();
 
   std::string name_lowercase;
   name_lowercase.resize(name.size());
   for(std::string::size_type i = 0; i < name.size(); ++i)
     name_lowercase[i] = static_cast<char>(tolower(name[i]));
 
-  Aliases::iterator i = language_aliases.find(name_lowercase);
-  if (i != language_aliases.end())
+  Aliases::iterator i = aliases.find(name_lowercase);
+  if (i != aliases.end())
   {
     return i->second;
   }
@@ -377,13 +378,16 @@ Language
 Language::from_spec(const std::string& language, const std::string& country, const std::string& modifier)
 {
   typedef std::unordered_map<std::string, std::vector<const LanguageSpec*> > LanguageSpecMap;
-  static LanguageSpecMap language_map;
 
-  if (language_map.empty())
+  // Initialized in one go, so that a partially filled map is never
+  // visible, neither to other threads nor after an exception
+  static LanguageSpecMap language_map = []()
   { // Init language_map
+    LanguageSpecMap map;
     for(int i = 0; languages[i].language != nullptr; ++i)
-      language_map[languages[i].language].push_back(&languages[i]);
-  }
+      map[languages[i].language].push_back(&languages[i]);
+    return map;
+  }();
 
   LanguageSpecMap::iterator i = language_map.find(language);
   if (i != language_map.end())
diff --git a/src/plural_forms.cpp b/src/plural_forms.cpp
index ec3b6a6..d3c4e26 100644
--- a/src/plural_forms.cpp
+++ b/src/plural_forms.cpp
@@ -65,10 +65,9 @@ PluralForms
 PluralForms::from_string(const std::string& str)
 {
   typedef std::unordered_map<std::string, PluralForms> PluralFormsMap;
-  static PluralFormsMap plural_forms;
-
-  if (plural_forms.empty())
+  static PluralFormsMap known_forms = []()
   {
+    PluralFormsMap plural_forms;
     // Note that the plural forms here shouldn't contain any spaces
     plural_forms["Plural-Forms:nplurals=1;plural=0;"] = PluralForms(1, plural1);
     plural_forms["Plural-Forms:nplurals=2;plural=(n!=1);"] = PluralForms(2, plural2_1);
@@ -95,7 +94,8 @@ PluralForms::from_string(const std::string& str)
     plural_forms["Plural-Forms:nplurals=4;plural=(n==1&&n%1==0)?0:(n==2&&n%1==0)?1:(n%10==0&&n%1==0&&n>10)?2:3;"] = PluralForms(4, plural4_he);
     plural_forms["Plural-Forms:nplurals=5;plural=(n==1?0:n==2?1:n<7?2:n<11?3:4)"] = PluralForms(5, plural5_ga);
     plural_forms["Plural-Forms:nplurals=6;plural=n==0?0:n==1?1:n==2?2:n%100>=3&&n%100<=10?3:n%100>=11?4:5"]=PluralForms(6, plural6_ar);
-  }
+    return plural_forms;
+  }();
 
   // Remove spaces from string before lookup
   std::string space_less_str;
@@ -103,8 +103,8 @@ PluralForms::from_string(const std::string& str)
     if (!isspace(str[i]))
       space_less_str += str[i];
 
-  PluralFormsMap::const_iterator it= plural_forms.find(space_less_str);
-  if (it != plural_forms.end())
+  PluralFormsMap::const_iterator it= known_forms.find(space_less_str);
+  if (it != known_forms.end())
   {
     return it->second;
   }
-- 
2.43.0


From c064708fbc116d50015fd298cd009bdd0b1ecfe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:54 +0000
Subject: [PATCH 13/21] fix: a failed set_charsets() left a closed or invalid
 descriptor behind

It was closed a second time by the destructor, or used by the next
conversion.
---
 src/iconv.cpp | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/src/iconv.cpp b/src/iconv.cpp
index ba110d7..de4c650 100644
--- a/src/iconv.cpp
+++ b/src/iconv.cpp
@@ -53,32 +53,26 @@ IConv::~IConv()
 void
 IConv::set_charsets(const std::string& from_charset_, const std::string& to_charset_)
 {
-  if (cd)
-    tinygettext::iconv_close(cd);
-
-  from_charset = from_charset_;
-  to_charset   = to_charset_;
+  std::string new_from_charset = from_charset_;
+  std::string new_to_charset   = to_charset_;
+  iconv_t new_cd = nullptr;
 
-  for(std::string::iterator i = to_charset.begin(); i != to_charset.end(); ++i)
+  for(std::string::iterator i = new_to_charset.begin(); i != new_to_charset.end(); ++i)
     *i = static_cast<char>(toupper(*i));
 
-  for(std::string::iterator i = from_charset.begin(); i != from_charset.end(); ++i)
+  for(std::string::iterator i = new_from_charset.begin(); i != new_from_charset.end(); ++i)
     *i = static_cast<char>(toupper(*i));
 
-  if (to_charset == from_charset)
-  {
-    cd = nullptr;
-  }
-  else
+  if (new_to_charset != new_from_charset)
   {
-    cd = tinygettext::iconv_open(to_charset.c_str(), from_charset.c_str());
-    if (cd == reinterpret_cast<iconv_t>(-1))
+    new_cd = tinygettext::iconv_open(new_to_charset.c_str(), new_from_charset.c_str());
+    if (new_cd == reinterpret_cast<iconv_t>(-1))
     {
       if(errno == EINVAL)
       {
         std::ostringstream str;
-        str << "IConv construction failed: conversion from '" << from_charset
-            << "' to '" << to_charset << "' not available";
+        str << "IConv construction failed: conversion from '" << new_from_charset
+            << "' to '" << new_to_charset << "' not available";
         throw std::runtime_error(str.str());
       }
       else
@@ -89,6 +83,14 @@ IConv::set_charsets(const std::string& from_charset_, const std::string& to_char
       }
     }
   }
+
+  // Nothing can fail from here on, replace the old conversion
+  if (cd)
+    tinygettext::iconv_close(cd);
+
+  cd = new_cd;
+  from_charset.swap(new_from_charset);
+  to_charset.swap(new_to_charset);
 }
 
 /// Convert a string from encoding to another.
-- 
2.43.0


From 331cf388df6ca3efebc3485332fef4f9bfcba7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:54 +0000
Subject: [PATCH 14/21] fix: conversion to some charsets aborted or depended on
 earlier texts

The output can be larger than four times the input (UTF-32 with its
byte-order mark, UTF-7, transliteration), and for stateful charsets
the closing shift sequence was missing and the state leaked into the
next text.
---
 src/iconv.cpp | 40 ++++++++++++++++++++++++++++++++--------
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/src/iconv.cpp b/src/iconv.cpp
index de4c650..a5d47ae 100644
--- a/src/iconv.cpp
+++ b/src/iconv.cpp
@@ -97,7 +97,7 @@ IConv::set_charsets(const std::string& from_charset_, const std::string& to_char
 std::string
 IConv::convert(const std::string& text)
 {
-  if (!cd)
+  if (!cd || text.empty())
   {
     return text;
   }
@@ -112,8 +112,36 @@ IConv::convert(const std::string& text)
     std::string result(outbytesleft, 'X');
     char* outbuf = &result[0];
 
-    // Try to convert the text.
-    size_t ret = tinygettext::iconv(cd, &inbuf, &inbytesleft, &outbuf, &outbytesleft);
+    // Don't depend on the state that a previous conversion ended in
+    tinygettext::iconv(cd, nullptr, nullptr, nullptr, nullptr);
+
+    // Try to convert the text, then let it end in the initial shift state
+    size_t ret;
+    for(bool flush = false;;)
+    {
+      ret = flush
+        ? tinygettext::iconv(cd, nullptr, nullptr, &outbuf, &outbytesleft)
+        : tinygettext::iconv(cd, &inbuf, &inbytesleft, &outbuf, &outbytesleft);
+
+      if (ret != static_cast<size_t>(-1))
+      {
+        if (flush)
+          break;
+        flush = true;
+      }
+      else if (errno == E2BIG)
+      { // byte-order mark, shift sequences or transliteration need more space
+        size_t used = result.size() - outbytesleft;
+        result.resize(2 * result.size() + 16, 'X');
+        outbuf = &result[used];
+        outbytesleft = result.size() - used;
+      }
+      else
+      {
+        break;
+      }
+    }
+
     if (ret == static_cast<size_t>(-1))
     {
       if (errno == EILSEQ || errno == EINVAL)
@@ -123,10 +151,6 @@ IConv::convert(const std::string& text)
         // FIXME: Could try to skip the invalid byte and continue
         log_error << "error: tinygettext:iconv: invalid multibyte sequence in:  \"" << text << "\"" << std::endl;
       }
-      else if (errno == E2BIG)
-      { // output buffer to small
-        assert(false && "tinygettext/iconv.cpp: E2BIG: This should never be reached");
-      }
       else if (errno == EBADF)
       {
         assert(false && "tinygettext/iconv.cpp: EBADF: This should never be reached");
@@ -137,7 +161,7 @@ IConv::convert(const std::string& text)
       }
     }
 
-    result.resize(4*text.size() - outbytesleft);
+    result.resize(result.size() - outbytesleft);
 
     return result;
   }
-- 
2.43.0


From 90832032b3d615ed445134c6c6762ee4fdf9762d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:54 +0000
Subject: [PATCH 15/21] fix: a missing plural form was answered with the
 singular source text

---
 src/dictionary.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dictionary.cpp b/src/dictionary.cpp
index b61d215..3671685 100644
--- a/src/dictionary.cpp
+++ b/src/dictionary.cpp
@@ -89,7 +89,10 @@ Dictionary::translate_plural(const Entries& dict, const std::string& msgid, cons
     {
       log_error << "Plural translation not available (and not set to empty): '" << msgid << "'" << std::endl;
       log_error << "Missing plural form: " << n << std::endl;
-      return msgid;
+      if (count == 1) // default to english rules
+        return msgid;
+      else
+        return msgid_plural;
     }
 
     if (!msgstrs[n].empty())
-- 
2.43.0


From c37c0f785cb0531387008b2cafaf463eda20ae03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:54 +0000
Subject: [PATCH 16/21] fix: plural and context lookups did not fall back
 properly

A context lookup in a regional dictionary was answered with the base
language's translation without context, or not at all when the context
was unknown; plural lookups never fell back.
---
 src/dictionary.cpp | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/dictionary.cpp b/src/dictionary.cpp
index 3671685..ea53687 100644
--- a/src/dictionary.cpp
+++ b/src/dictionary.cpp
@@ -37,6 +37,13 @@ std::ostream& operator<<(std::ostream& o, const std::vector<std::string>& v)
   return o;
 }
 
+bool has_message(const std::unordered_map<std::string, std::vector<std::string> >& dict,
+                 const std::string& msgid)
+{
+  auto it = dict.find(msgid);
+  return it != dict.end() && !it->second.empty();
+}
+
 } // namespace
 
 Dictionary::Dictionary(const std::string& charset_) :
@@ -74,6 +81,9 @@ Dictionary::get_plural_forms() const
 std::string
 Dictionary::translate_plural(const std::string& msgid, const std::string& msgid_plural, int num) const
 {
+  if (m_has_fallback && !has_message(entries, msgid))
+    return m_fallback->translate_plural(msgid, msgid_plural, num);
+
   return translate_plural(entries, msgid, msgid_plural, num);
 }
 
@@ -120,6 +130,9 @@ Dictionary::translate_plural(const Entries& dict, const std::string& msgid, cons
 std::string
 Dictionary::translate(const std::string& msgid) const
 {
+  if (m_has_fallback && !has_message(entries, msgid))
+    return m_fallback->translate(msgid);
+
   return translate(entries, msgid);
 }
 
@@ -134,9 +147,7 @@ Dictionary::translate(const Entries& dict, const std::string& msgid) const
   else
   {
     log_info << "Couldn't translate: " << msgid << std::endl;
-
-    if (m_has_fallback) return m_fallback->translate(msgid);
-    else return msgid;
+    return msgid;
   }
 }
 
@@ -144,6 +155,9 @@ std::string
 Dictionary::translate_ctxt(const std::string& msgctxt, const std::string& msgid) const
 {
   CtxtEntries::const_iterator i = ctxt_entries.find(msgctxt);
+  if (m_has_fallback && (i == ctxt_entries.end() || !has_message(i->second, msgid)))
+    return m_fallback->translate_ctxt(msgctxt, msgid);
+
   if (i != ctxt_entries.end())
   {
     return translate(i->second, msgid);
@@ -160,6 +174,9 @@ Dictionary::translate_ctxt_plural(const std::string& msgctxt,
                                   const std::string& msgid, const std::string& msgidplural, int num) const
 {
   CtxtEntries::const_iterator i = ctxt_entries.find(msgctxt);
+  if (m_has_fallback && (i == ctxt_entries.end() || !has_message(i->second, msgid)))
+    return m_fallback->translate_ctxt_plural(msgctxt, msgid, msgidplural, num);
+
   if (i != ctxt_entries.end())
   {
     return translate_plural(i->second, msgid, msgidplural, num);
-- 
2.43.0


From a721a7acafbc773878ac681b1b086403687b3fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:54 +0000
Subject: [PATCH 17/21] fix: add_translation() could leave mixed or empty
 entries behind

When it ran out of memory halfway, an entry could end up with some of
its old and some of its new plural forms, or without any.
---
 src/dictionary.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/dictionary.cpp b/src/dictionary.cpp
index ea53687..294ceff 100644
--- a/src/dictionary.cpp
+++ b/src/dictionary.cpp
@@ -195,33 +195,35 @@ void
 Dictionary::add_translation(const std::string& msgid, const std::string& msgid_plural,
                             const std::vector<std::string>& msgstrs)
 {
+  std::vector<std::string> new_msgstrs(msgstrs); // nothing may fail halfway
   std::vector<std::string>& vec = entries[msgid];
   if (vec.empty())
   {
-    vec = msgstrs;
+    vec.swap(new_msgstrs);
   }
   else if (vec != msgstrs)
   {
     log_warning << "collision in add_translation: '"
                 << msgid << "', '" << msgid_plural
                 << "' -> [" << vec << "] vs [" << msgstrs << "]" << std::endl;
-    vec = msgstrs;
+    vec.swap(new_msgstrs);
   }
 }
 
 void
 Dictionary::add_translation(const std::string& msgid, const std::string& msgstr)
 {
+  std::vector<std::string> new_msgstrs(1, msgstr); // nothing may fail halfway
   std::vector<std::string>& vec = entries[msgid];
   if (vec.empty())
   {
-    vec.push_back(msgstr);
+    vec.swap(new_msgstrs);
   }
   else if (vec[0] != msgstr)
   {
     log_warning << "collision in add_translation: '"
                 << msgid << "' -> '" << msgstr << "' vs '" << vec[0] << "'" << std::endl;
-    vec[0] = msgstr;
+    vec[0].swap(new_msgstrs[0]);
   }
 }
 
@@ -230,34 +232,36 @@ Dictionary::add_translation(const std::string& msgctxt,
                             const std::string& msgid, const std::string& msgid_plural,
                             const std::vector<std::string>& msgstrs)
 {
+  std::vector<std::string> new_msgstrs(msgstrs); // nothing may fail halfway
   std::vector<std::string>& vec = ctxt_entries[msgctxt][msgid];
   if (vec.empty())
   {
-    vec = msgstrs;
+    vec.swap(new_msgstrs);
   }
   else if (vec != msgstrs)
   {
     log_warning << "collision in add_translation: '"
                 << msgctxt << "', '" << msgid << "', '" << msgid_plural
                 << "' -> [" << vec << "] vs [" << msgstrs << "]" << std::endl;
-    vec = msgstrs;
+    vec.swap(new_msgstrs);
   }
 }
 
 void
 Dictionary::add_translation(const std::string& msgctxt, const std::string& msgid, const std::string& msgstr)
 {
+  std::vector<std::string> new_msgstrs(1, msgstr); // nothing may fail halfway
   std::vector<std::string>& vec = ctxt_entries[msgctxt][msgid];
   if (vec.empty())
   {
-    vec.push_back(msgstr);
+    vec.swap(new_msgstrs);
   }
   else if (vec[0] != msgstr)
   {
     log_warning << "collision in add_translation: '"
                 << msgctxt << "', '" << msgid
                 << "' -> '" << vec[0] << "' vs '" << msgstr << "'" << std::endl;
-    vec[0] = msgstr;
+    vec[0].swap(new_msgstrs[0]);
   }
 }
 
-- 
2.43.0


From 613043bc07377ce7144f815d649337f92b593f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:08 +0000
Subject: [PATCH 18/21] fix: an empty msgid with a context was taken for the
 header

---
 src/po_parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/po_parser.cpp b/src/po_parser.cpp
index c3cade0..d67a59b 100644
--- a/src/po_parser.cpp
+++ b/src/po_parser.cpp
@@ -459,7 +459,7 @@ POParser::parse()
         {
           std::string msgstr = get_string(6);
 
-          if (msgid.empty())
+          if (msgid.empty() && !has_msgctxt)
           {
             parse_header(msgstr);
           }
-- 
2.43.0


From 6250c0590e4778d3a51ffc7eef5a7d112e37b88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:08 +0000
Subject: [PATCH 19/21] fix: the last header line was ignored when it lacked
 its newline

---
 src/po_parser.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/po_parser.cpp b/src/po_parser.cpp
index d67a59b..f0c3b40 100644
--- a/src/po_parser.cpp
+++ b/src/po_parser.cpp
@@ -247,9 +247,10 @@ POParser::parse_header(const std::string& header)
 {
   std::string from_charset;
   std::string::size_type start = 0;
-  for(std::string::size_type i = 0; i < header.length(); ++i)
+  for(std::string::size_type i = 0; i <= header.length(); ++i)
   {
-    if (header[i] == '\n')
+    // the last line might lack its newline
+    if (i == header.length() || header[i] == '\n')
     {
       std::string line = header.substr(start, i - start);
 
-- 
2.43.0


From da98d85b560c2fe3782b523b027dd11b5a7be1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:03 +0000
Subject: [PATCH 20/21] fix: a catalogue with an unknown charset decided the
 plural forms

Its messages are never loaded, but its Plural-Forms header was taken over
before the charset was looked at, so that the messages of the other
catalogues were served in the wrong plural form.
---
 src/po_parser.cpp | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/po_parser.cpp b/src/po_parser.cpp
index f0c3b40..5619246 100644
--- a/src/po_parser.cpp
+++ b/src/po_parser.cpp
@@ -246,6 +246,7 @@ void
 POParser::parse_header(const std::string& header)
 {
   std::string from_charset;
+  PluralForms header_plural_forms;
   std::string::size_type start = 0;
   for(std::string::size_type i = 0; i <= header.length(); ++i)
   {
@@ -279,16 +280,9 @@ POParser::parse_header(const std::string& header)
         }
         else
         {
-          if (!dict.get_plural_forms())
+          if (!header_plural_forms)
           {
-            dict.set_plural_forms(plural_forms);
-          }
-          else
-          {
-            if (dict.get_plural_forms() != plural_forms)
-            {
-              warning("Plural-Forms missmatch between .po file and dictionary");
-            }
+            header_plural_forms = plural_forms;
           }
         }
       }
@@ -307,6 +301,23 @@ POParser::parse_header(const std::string& header)
   }
 
   conv.set_charsets(from_charset, dict.get_charset());
+
+  // a file that can't be used because of its charset has no say in the
+  // plural forms
+  if (header_plural_forms)
+  {
+    if (!dict.get_plural_forms())
+    {
+      dict.set_plural_forms(header_plural_forms);
+    }
+    else
+    {
+      if (dict.get_plural_forms() != header_plural_forms)
+      {
+        warning("Plural-Forms missmatch between .po file and dictionary");
+      }
+    }
+  }
 }
 
 bool
-- 
2.43.0


From 507c390d5ac54ff30ba3bddc38b59eb819305fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:59 +0000
Subject: [PATCH 21/21] fix: second bytes of two-byte characters were taken for
 escapes

---
 include/tinygettext/po_parser.hpp |  1 +
 src/po_parser.cpp                 | 17 +++++++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/include/tinygettext/po_parser.hpp b/include/tinygettext/po_parser.hpp
index fcc4b9e..37425f2 100644
--- a/include/tinygettext/po_parser.hpp
+++ b/include/tinygettext/po_parser.hpp
@@ -39,6 +39,7 @@ private:
   bool running;
   bool eof;
   bool big5;
+  bool shift_jis;
 
   int line_number;
   std::string current_line;
diff --git a/src/po_parser.cpp b/src/po_parser.cpp
index 5619246..12bf817 100644
--- a/src/po_parser.cpp
+++ b/src/po_parser.cpp
@@ -55,6 +55,7 @@ POParser::POParser(const std::string& filename_, std::istream& in_, Dictionary&
   running(false),
   eof(false),
   big5(false),
+  shift_jis(false),
   line_number(0),
   current_line(),
   conv()
@@ -112,6 +113,12 @@ POParser::get_string_line(std::ostringstream& out, size_t skip)
   std::string::size_type i;
   for(i = skip+1; current_line[i] != '\"'; ++i)
   {
+    if (shift_jis && static_cast<unsigned char>(current_line[i]) >= 0xa1 && static_cast<unsigned char>(current_line[i]) <= 0xdf)
+    { // katakana are single bytes
+      out << current_line[i];
+      continue;
+    }
+
     if (big5 && static_cast<unsigned char>(current_line[i]) >= 0x81 && static_cast<unsigned char>(current_line[i]) <= 0xfe)
     {
       out << current_line[i];
@@ -299,6 +306,16 @@ POParser::parse_header(const std::string& header)
   {
     big5 = true;
   }
+  else if (from_charset == "BIG5-HKSCS" || from_charset == "CP950" || from_charset == "GBK" || from_charset == "CP936" ||
+           from_charset == "GB18030" || from_charset == "JOHAB")
+  { // like Big5, the second byte of a character might be a backslash
+    big5 = true;
+  }
+  else if (from_charset == "SHIFT_JIS" || from_charset == "SJIS" || from_charset == "CP932")
+  {
+    big5 = true;
+    shift_jis = true;
+  }
 
   conv.set_charsets(from_charset, dict.get_charset());
 
-- 
2.43.0

