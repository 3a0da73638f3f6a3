From 23c9de03811c8bc792c9231360dc655c59613583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:30 +0000
Subject: [PATCH 01/11] fix: MD5 round functions F and G follow RFC 1321

The parentheses were misplaced, so no digest was an MD5 digest
(md5("") was not d41d8cd98f00b204e9800998ecf8427e).
---
 src/md5.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/md5.cpp b/src/md5.cpp
index 65153e0..6587fa1 100644
--- a/src/md5.cpp
+++ b/src/md5.cpp
@@ -60,11 +60,11 @@ documentation and/or software.
 
 // F, G, H and I are basic MD5 functions.
 inline MD5::uint4 MD5::F( uint4 x, uint4 y, uint4 z ) {
-    return ( ( x & y ) | ~x ) & z;
+    return ( x & y ) | ( ~x & z );
 }
 
 inline MD5::uint4 MD5::G( uint4 x, uint4 y, uint4 z ) {
-    return ( ( x & z ) | y ) & ~z;
+    return ( x & z ) | ( y & ~z );
 }
 
 inline MD5::uint4 MD5::H( uint4 x, uint4 y, uint4 z ) {
-- 
2.43.0


From 8b5c5ebbd38c6036a19930d0e108d808ea948d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:30 +0000
Subject: [PATCH 02/11] fix: strip exactly the three bytes of a UTF-8 BOM

substr(4) also dropped the first character of the first line of a
grammar or lexicon, and threw out_of_range on a line holding only a BOM.
---
 src/grammar.cpp | 2 +-
 src/lexicon.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/grammar.cpp b/src/grammar.cpp
index 7b84814..a84b4dd 100644
--- a/src/grammar.cpp
+++ b/src/grammar.cpp
@@ -69,7 +69,7 @@ void Grammar::initialize( std::istream &is )
 
         // remove UTF8 BOM if one exists
         if ( line_cnt == 1 and line[0] == '\xEF' and line[1] == '\xBB' and line[2] == '\xBF' )
-            line = line.substr(4);
+            line = line.substr(3);
 
         // skip over comments and blank lines
         if ( boost::u32regex_match( line, re_comment ) ) 
diff --git a/src/lexicon.cpp b/src/lexicon.cpp
index 098a8d2..304d2d2 100644
--- a/src/lexicon.cpp
+++ b/src/lexicon.cpp
@@ -74,7 +74,7 @@ void Lexicon::initialize( std::istream &is ) {
 
     // remove UTF8 BOM if one exists
     if (line[0] == '\xEF' && line[1] == '\xBB' && line[2] == '\xBF')
-        line = line.substr(4);
+        line = line.substr(3);
     ++cnt;
 
     // read the header and skip any
-- 
2.43.0


From fc8326d973b9fc867a1897eb5936f286e0f47587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:30 +0000
Subject: [PATCH 03/11] fix: report a lexicon or grammar that fails to load
 instead of crashing

CreateStd passed a NULL char** that the loaders write through, and freed
the lexicon twice when the grammar failed to load.
---
 src/std_pg_hash.c | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/std_pg_hash.c b/src/std_pg_hash.c
index 9f96aa9..2c71347 100644
--- a/src/std_pg_hash.c
+++ b/src/std_pg_hash.c
@@ -587,7 +587,7 @@ CreateStd(char *lexicon, char *grammar)
     STANDARDIZER     *std;
     void             *lex;
     void             *gmr;
-    char            **err_msg = NULL;
+    char             *err_msg = NULL;
     char             *pmsg;
 
     DBG("Enter: CreateStd");
@@ -599,26 +599,25 @@ CreateStd(char *lexicon, char *grammar)
 
 
     DBG("Calling getLexiconPtr( lexicon, err_msg )");
-    lex = getLexiconPtr( lexicon, err_msg );
+    lex = getLexiconPtr( lexicon, &err_msg );
     DBG("Back from (%p) getLexiconPtr( lexicon, err_msg )", lex);
     if (!lex) {
         std_free(std);
         SPI_finish();
-        pmsg = pstrdup(*err_msg);
-        free(*err_msg);
+        pmsg = pstrdup(err_msg);
+        free(err_msg);
         elog(ERROR, "CreateStd: failed to load Lexicon (%s)", pmsg);
     }
     std->lex_obj = lex;
 
     DBG("Calling getGrammarPtr( grammar, err_msg )");
-    gmr = getGrammarPtr( grammar, err_msg );
+    gmr = getGrammarPtr( grammar, &err_msg );
     DBG("Back from (%p) getGrammarPtr( grammar, err_msg )", gmr);
     if (!gmr) {
-        freeLexiconPtr( lex );
         std_free(std);
         SPI_finish();
-        pmsg = pstrdup(*err_msg);
-        free(*err_msg);
+        pmsg = pstrdup(err_msg);
+        free(err_msg);
         elog(ERROR, "CreateStd: failed to load Gammar (%s)", pmsg);
     }
     std->gmr_obj = gmr;
-- 
2.43.0


From cab51966ef552f76fc377520d103b61c0b7eb83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:30 +0000
Subject: [PATCH 04/11] fix: quote ^, { and } in the lexicon regular expression

A word set like {"X^", "XE"} became X[^E], which matches neither as written.
---
 src/trieutf8.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trieutf8.cpp b/src/trieutf8.cpp
index aee5370..ccafc27 100644
--- a/src/trieutf8.cpp
+++ b/src/trieutf8.cpp
@@ -121,7 +121,7 @@ void TrieUtf8::getWordsStartingWith( const std::string &prefix, WordSet &words,
 
 
 std::string TrieUtf8::quoteMeta( const std::string &str ) const {
-    static std::string special( "-.+*~$()[]\\|?" );
+    static std::string special( "-.+*^~$()[]{}\\|?" );
 
     std::string tmp;
     size_t last = 0;
-- 
2.43.0


From c16104703a495c411e3f998036a882b48bbf225f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:30 +0000
Subject: [PATCH 05/11] fix: do not split a blank token into empty words

Every white space token doubled the number of alternate token lists and
put tokens with no text in them.
---
 src/tokenizer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tokenizer.cpp b/src/tokenizer.cpp
index 2806648..ff66af5 100644
--- a/src/tokenizer.cpp
+++ b/src/tokenizer.cpp
@@ -15,6 +15,7 @@
 #include <string>
 #include <boost/algorithm/string/classification.hpp>
 #include <boost/algorithm/string/split.hpp>
+#include <boost/algorithm/string/trim.hpp>
 
 #include "tokenizer.h"
 #include "utils.h"
@@ -276,6 +277,8 @@ std::vector<std::vector<Token> > Tokenizer::getAltTokens( const std::vector<Toke
         // split each token into words
         std::vector<std::string> words;
         std::string str( t.text() );
+        // a blank at either end does not separate words
+        boost::trim_if(str, boost::is_any_of(" "));
         boost::split(words, str, boost::is_any_of(" "), boost::token_compress_on);
         alt.push_back( words );
     }
-- 
2.43.0


From d7d02efaed8f3712fe44e0bf44653773c17455af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:30 +0000
Subject: [PATCH 06/11] fix: return each match of the grammar once

Every intermediate result restarted the search from all of its siblings,
so a match was repeated once per sibling at every step.
---
 src/search.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/search.cpp b/src/search.cpp
index 74f588a..63dde7c 100644
--- a/src/search.cpp
+++ b/src/search.cpp
@@ -392,9 +392,9 @@ SearchPaths Search::matchNext( const SearchPath &path, const unsigned long int l
 
     for ( const auto &result : mr ) {
         if ( result.next.size() > 0 ) {
-            SearchPaths nextResults = matchNext( mr, level );
-            for ( const auto &result : nextResults )
-                results.push_back( result );
+            SearchPaths nextResults = matchNext( result, level );
+            for ( const auto &next : nextResults )
+                results.push_back( next );
         }
         else {
             results.push_back( result );
-- 
2.43.0


From 8d6da642a4644a7af949c5186b6eaf04d02d08b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:26 +0000
Subject: [PATCH 07/11] fix: read the last line of a lexicon once when it does
 not end in a newline

Lexicon::initialize kept the text of the last line when the read after it
failed, so that a lexicon without a newline at the end had its last line
handled twice: a header alone was refused as an invalid entry, a last entry
was normalized and inserted again.
---
 src/lexicon.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/lexicon.cpp b/src/lexicon.cpp
index 304d2d2..0977399 100644
--- a/src/lexicon.cpp
+++ b/src/lexicon.cpp
@@ -111,8 +111,7 @@ void Lexicon::initialize( std::istream &is ) {
     UErrorCode errorCode;
 
     // read in the lexicon entries
-    while ( is ) {
-        std::getline( is, line );
+    while ( std::getline( is, line ) ) {
         lexicon_in += line;
         ++cnt;
         //std::cout << "\t" << line << "\n";
-- 
2.43.0


From 2c47c5d3d10365eff59a769b666bac00fad852f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:26 +0000
Subject: [PATCH 08/11] fix: read an entry line that starts with LexEntry: also
 without a locale

The loader accepts both spellings of the keyword, but the entry constructor
skipped only the one in upper case, so the other one was taken for the word
of the entry unless a locale had it changed to upper case before.
---
 src/lexentry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexentry.cpp b/src/lexentry.cpp
index 56a787a..6203c0d 100644
--- a/src/lexentry.cpp
+++ b/src/lexentry.cpp
@@ -124,7 +124,7 @@ LexEntry::LexEntry(const std::string &line)
 
     std::stringstream buffer(line);
     std::getline(buffer, in_word, '\t');
-    if (in_word == "LEXENTRY:")
+    if (in_word == "LEXENTRY:" or in_word == "LexEntry:")
         std::getline(buffer, in_word, '\t');
     std::getline(buffer, in_stdword, '\t');
     std::getline(buffer, in_type, '\t');
-- 
2.43.0


From 7b57e303d414a8da2d883a76de426ce5e98ecea8 Mon Sep 17 00:00:00 2001
From: fix <f@x>
Date: Thu, 19 Nov 2026 22:31:59 +0000
Subject: [PATCH 09/11] fix: read the last line of a grammar once when the text
 does not end in a newline

---
 src/grammar.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/grammar.cpp b/src/grammar.cpp
index a84b4dd..f6ad6ea 100644
--- a/src/grammar.cpp
+++ b/src/grammar.cpp
@@ -61,9 +61,8 @@ void Grammar::initialize( std::istream &is )
 
     boost::smatch what;
     int line_cnt = 0;
-    while ( is ) {
+    while ( std::getline( is, line ) ) {
         ++line_cnt;
-        std::getline( is, line );
         grammar_in += line;
         //std::cout << "\t" << line_cnt << ": " << line << "\n";
 
-- 
2.43.0


From 2e7b3d7d54c57ea335902cb7f2b68032b4b993f5 Mon Sep 17 00:00:00 2001
From: fix <f@x>
Date: Thu, 19 Nov 2026 22:31:59 +0000
Subject: [PATCH 10/11] fix: refuse a malformed reference line of a grammar
 instead of dropping it

---
 src/grammar.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/grammar.cpp b/src/grammar.cpp
index f6ad6ea..fbc84b5 100644
--- a/src/grammar.cpp
+++ b/src/grammar.cpp
@@ -118,10 +118,11 @@ void Grammar::initialize( std::istream &is )
                 ruleType = ISMETA;
 
                 // make sure all tokens are meta
-                if (boost::u32regex_match( line, re_ismeta ) ) {
-                    MetaRule rule( line );
-                    mrules.push_back( rule );
-                }
+                if ( not boost::u32regex_match( line, re_ismeta ) )
+                    throw std::runtime_error("Grammar-Syntax-Error");
+
+                MetaRule rule( line );
+                mrules.push_back( rule );
             }
             // otherwise it is a standard rule line
             else {
-- 
2.43.0


From 44b083fdb31c60e255a9789ba251cc4aa9d1661d Mon Sep 17 00:00:00 2001
From: fix <f@x>
Date: Thu, 19 Nov 2026 22:31:59 +0000
Subject: [PATCH 11/11] fix: refuse a rule whose score is not a number

---
 src/rule.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rule.cpp b/src/rule.cpp
index a1fd1b8..a5ab5e3 100644
--- a/src/rule.cpp
+++ b/src/rule.cpp
@@ -70,7 +70,7 @@ bool Rule::isEmpty() const {
 }
 
 bool Rule::isValid() const {
-    if ( inClass_.size() != outClass_.size() or score_ <= 0 )
+    if ( inClass_.size() != outClass_.size() or not ( score_ > 0 ) )
         return false;
 
     return true;
-- 
2.43.0

