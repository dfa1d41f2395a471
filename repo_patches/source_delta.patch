From 1a5fa4efa7aae7fe53aa19e284f26adead31fe65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:48 +0000
Subject: [PATCH 001/129] fix: command_line: an asterisk inside a value is not
 a consumed switch

The character marking consumed letters of combined switches was '*', so any
unlabelled or delimiter joined value containing one was refused.
---
 ecl_command_line/include/ecl/command_line/arg.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_command_line/include/ecl/command_line/arg.hpp b/ecl_command_line/include/ecl/command_line/arg.hpp
index b401093..2e7b9e5 100644
--- a/ecl_command_line/include/ecl/command_line/arg.hpp
+++ b/ecl_command_line/include/ecl/command_line/arg.hpp
@@ -179,7 +179,7 @@ class Arg
 		 * Currently set to '*', which shouldn't cause many problems since
 		 * *'s are expanded by most shells on the command line.
 		 */
-		static char blankChar() { return '*'; }
+		static char blankChar() { return static_cast<char>(7); }
 
 		/**
 		 * The char that indicates the beginning of a flag.  Currently '-'.
-- 
2.43.0


From 212d2d8e32242218c96d26def1e59aebaff23968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:48 +0000
Subject: [PATCH 002/129] fix: command_line: do not take letters of a delimited
 value for switches

With a delimiter other than space, -i=dog set a switch d; a dash inside a word
set the ignore rest switch; a switch without a flag compared with flag[0].
---
 ecl_command_line/include/ecl/command_line/switch_arg.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ecl_command_line/include/ecl/command_line/switch_arg.hpp b/ecl_command_line/include/ecl/command_line/switch_arg.hpp
index 5fd6f99..e076b83 100644
--- a/ecl_command_line/include/ecl/command_line/switch_arg.hpp
+++ b/ecl_command_line/include/ecl/command_line/switch_arg.hpp
@@ -139,6 +139,15 @@ inline bool SwitchArg::combinedSwitchesMatch(std::string& combinedSwitches )
 		 Arg::nameStartString() )
 		return false;
 
+	// a word carrying a value belongs to a value argument
+	if ( Arg::delimiter() != ' ' &&
+		 combinedSwitches.find( Arg::delimiter() ) != std::string::npos )
+		return false;
+
+	// switches without a flag and the ignore rest switch cannot be combined
+	if ( _flag.empty() || _flag[0] == Arg::flagStartString()[0] )
+		return false;
+
 	// ok, we're not specifying a ValueArg, so we know that we have
 	// a combined switch list.
 	for ( unsigned int i = 1; i < combinedSwitches.length(); i++ )
-- 
2.43.0


From 3f45d137a2e38e519b0276c09a8f13f9f893ca75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:48 +0000
Subject: [PATCH 003/129] fix: command_line: a lone dash is not an empty
 combination of switches

It was swallowed silently although nothing declared it.
---
 ecl_command_line/include/ecl/command_line/cmd_line.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_command_line/include/ecl/command_line/cmd_line.hpp b/ecl_command_line/include/ecl/command_line/cmd_line.hpp
index 67ae615..8c825af 100644
--- a/ecl_command_line/include/ecl/command_line/cmd_line.hpp
+++ b/ecl_command_line/include/ecl/command_line/cmd_line.hpp
@@ -414,7 +414,7 @@ inline void CmdLine::parse(int argc, char** argv)
 
 inline bool CmdLine::_emptyCombined(const std::string& s)
 {
-	if ( s[0] != Arg::flagStartChar() )
+	if ( s.length() < 2 || s[0] != Arg::flagStartChar() )
 		return false;
 
 	for ( int i = 1; static_cast<unsigned int>(i) < s.length(); i++ )
-- 
2.43.0


From 9d3cf573ebc735c232833897445e3cb2c085fc1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:48 +0000
Subject: [PATCH 004/129] fix: command_line: an empty word is not a number

Extraction reported success having read nothing, leaving the default (or an
uninitialised element) as the supplied value.
---
 ecl_command_line/include/ecl/command_line/multi_arg.hpp | 2 +-
 ecl_command_line/include/ecl/command_line/value_arg.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecl_command_line/include/ecl/command_line/multi_arg.hpp b/ecl_command_line/include/ecl/command_line/multi_arg.hpp
index 82492af..bb346b3 100644
--- a/ecl_command_line/include/ecl/command_line/multi_arg.hpp
+++ b/ecl_command_line/include/ecl/command_line/multi_arg.hpp
@@ -98,7 +98,7 @@ class ValueExtractor
 				valuesRead++;
 			}
 
-			if ( is.fail() )
+			if ( is.fail() || valuesRead == 0 )
 				return EXTRACT_FAILURE;
 
 			if ( valuesRead > 1 )
diff --git a/ecl_command_line/include/ecl/command_line/value_arg.hpp b/ecl_command_line/include/ecl/command_line/value_arg.hpp
index 0aedd35..81f7f49 100644
--- a/ecl_command_line/include/ecl/command_line/value_arg.hpp
+++ b/ecl_command_line/include/ecl/command_line/value_arg.hpp
@@ -95,7 +95,7 @@ template<class T> class ValueExtractor
                 valuesRead++;
             }
 
-            if ( is.fail() )
+            if ( is.fail() || valuesRead == 0 )
                 return EXTRACT_FAILURE;
 
             if ( valuesRead > 1 )
-- 
2.43.0


From 75a5eeba6aad5b65c637d300ad374878b3e9948d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:48 +0000
Subject: [PATCH 005/129] fix: command_line: count switches given in a
 combination towards their xor group

-ac with a in an xor group failed for a missing required argument, and two
members of one group could be given together.
---
 ecl_command_line/include/ecl/command_line/cmd_line.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ecl_command_line/include/ecl/command_line/cmd_line.hpp b/ecl_command_line/include/ecl/command_line/cmd_line.hpp
index 8c825af..78c78cd 100644
--- a/ecl_command_line/include/ecl/command_line/cmd_line.hpp
+++ b/ecl_command_line/include/ecl/command_line/cmd_line.hpp
@@ -383,12 +383,16 @@ inline void CmdLine::parse(int argc, char** argv)
 		bool matched = false;
 		for (ArgListIterator it = _argList.begin(); it != _argList.end(); it++)
         {
+			const bool wasSet = (*it)->isSet();
 			if ( (*it)->processArg( &i, args ) )
 			{
 				requiredCount += _xorHandler.check( *it );
 				matched = true;
 				break;
 			}
+			// a switch inside a combination leaves the word to the other switches
+			if ( !wasSet && (*it)->isSet() )
+				requiredCount += _xorHandler.check( *it );
         }
 
 		// checks to see if the argument is an empty combined switch ...
-- 
2.43.0


From 978b83f513782aba8cb31d2b757edd17451fecbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:48 +0000
Subject: [PATCH 006/129] fix: command_line: multi arguments take part in xor
 groups correctly

A MultiArg or MultiSwitchArg was accepted beside another member of its group,
and a repeated MultiSwitchArg of a group failed with too many arguments.
---
 .../include/ecl/command_line/multi_arg.hpp    |  5 +++
 .../ecl/command_line/multi_switch_arg.hpp     | 33 +++++++++++++++++--
 2 files changed, 36 insertions(+), 2 deletions(-)

diff --git a/ecl_command_line/include/ecl/command_line/multi_arg.hpp b/ecl_command_line/include/ecl/command_line/multi_arg.hpp
index bb346b3..bb27f9b 100644
--- a/ecl_command_line/include/ecl/command_line/multi_arg.hpp
+++ b/ecl_command_line/include/ecl/command_line/multi_arg.hpp
@@ -407,6 +407,11 @@ bool MultiArg<T>::processArg(int *i, std::vector<std::string>& args)
 
    	if ( argMatches( flag ) )
    	{
+		if ( _xorSet )
+			throw( CmdLineParseException(
+			           "Mutually exclusive argument already set!",
+					   toString() ) );
+
    		if ( Arg::delimiter() != ' ' && value == "" )
 			throw( ArgParseException(
 			           "Couldn't find delimiter for this argument!",
diff --git a/ecl_command_line/include/ecl/command_line/multi_switch_arg.hpp b/ecl_command_line/include/ecl/command_line/multi_switch_arg.hpp
index 327a291..2feb6db 100644
--- a/ecl_command_line/include/ecl/command_line/multi_switch_arg.hpp
+++ b/ecl_command_line/include/ecl/command_line/multi_switch_arg.hpp
@@ -35,6 +35,10 @@ class MultiSwitchArg : public SwitchArg
 		 */
 		int _value;
 
+		/**
+		 * Whether an occurrence has been counted already.
+		 */
+		bool _allowMore;
 
 	public:
 
@@ -104,6 +108,12 @@ class MultiSwitchArg : public SwitchArg
 		 * Returns the longID for this Arg.
 		 */
 		std::string longID(const std::string& val) const;
+
+		/**
+		 * Further occurrences do not count again towards the required
+		 * arguments.
+		 */
+		virtual bool allowMore();
 };
 
 //////////////////////////////////////////////////////////////////////
@@ -115,7 +125,8 @@ inline MultiSwitchArg::MultiSwitchArg(const std::string& flag,
 					int init,
 					Visitor* v )
 : SwitchArg(flag, name, desc, false, v),
-_value( init )
+_value( init ),
+_allowMore( false )
 { }
 
 inline MultiSwitchArg::MultiSwitchArg(const std::string& flag,
@@ -125,7 +136,8 @@ inline MultiSwitchArg::MultiSwitchArg(const std::string& flag,
 					int init,
 					Visitor* v )
 : SwitchArg(flag, name, desc, false, v),
-_value( init )
+_value( init ),
+_allowMore( false )
 {
 	parser.add( this );
 }
@@ -139,6 +151,11 @@ inline bool MultiSwitchArg::processArg(int *i, std::vector<std::string>& args)
 
 	if ( argMatches( args[*i] ))
 	{
+		if ( _xorSet )
+			throw( CmdLineParseException(
+			           "Mutually exclusive argument already set!",
+					   toString() ) );
+
 		// so the isSet() method will work
 		_alreadySet = true;
 
@@ -151,6 +168,11 @@ inline bool MultiSwitchArg::processArg(int *i, std::vector<std::string>& args)
 	}
 	else if ( combinedSwitchesMatch( args[*i] ) )
 	{
+		if ( _xorSet )
+			throw( CmdLineParseException(
+			           "Mutually exclusive argument already set!",
+					   toString() ) );
+
 		// so the isSet() method will work
 		_alreadySet = true;
 
@@ -169,6 +191,13 @@ inline bool MultiSwitchArg::processArg(int *i, std::vector<std::string>& args)
 		return false;
 }
 
+inline bool MultiSwitchArg::allowMore()
+{
+	bool am = _allowMore;
+	_allowMore = true;
+	return am;
+}
+
 inline std::string MultiSwitchArg::shortID(const std::string& val) const
 {
 	std::string id = Arg::shortID() + " ... " + val;
-- 
2.43.0


From c6df699e6816e9bc90efa1f705ccb0239a2d93d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:48 +0000
Subject: [PATCH 007/129] fix: command_line: usage wrapping does not read
 before the text

A first word longer than the line indexed the string with -1.
---
 ecl_command_line/include/ecl/command_line/std_output.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ecl_command_line/include/ecl/command_line/std_output.hpp b/ecl_command_line/include/ecl/command_line/std_output.hpp
index 9a5710b..855d115 100644
--- a/ecl_command_line/include/ecl/command_line/std_output.hpp
+++ b/ecl_command_line/include/ecl/command_line/std_output.hpp
@@ -238,10 +238,10 @@ inline void StdOutput::spacePrint( std::ostream& os,
 
 			// trim the length so it doesn't end in middle of a word
 			if ( stringLen == allowedLen )
-				while ( s[stringLen+start] != ' ' &&
+				while ( stringLen >= 0 &&
+						s[stringLen+start] != ' ' &&
 			   	        s[stringLen+start] != ',' &&
-			   	        s[stringLen+start] != '|' &&
-						stringLen >= 0 )
+			   	        s[stringLen+start] != '|' )
 					stringLen--;
 
 			// ok, the word is longer than the line, so just split
-- 
2.43.0


From 3bcea7df88bd6117d2c6ab4b2a7b1d43980d1709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:48 +0000
Subject: [PATCH 008/129] fix: command_line: usage of multi switches shows no
 value and that they repeat

The literal placeholder val was appended although they take none, and the
docbook output claimed they could not be repeated.
---
 .../include/ecl/command_line/multi_switch_arg.hpp    | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ecl_command_line/include/ecl/command_line/multi_switch_arg.hpp b/ecl_command_line/include/ecl/command_line/multi_switch_arg.hpp
index 2feb6db..4160264 100644
--- a/ecl_command_line/include/ecl/command_line/multi_switch_arg.hpp
+++ b/ecl_command_line/include/ecl/command_line/multi_switch_arg.hpp
@@ -127,7 +127,8 @@ inline MultiSwitchArg::MultiSwitchArg(const std::string& flag,
 : SwitchArg(flag, name, desc, false, v),
 _value( init ),
 _allowMore( false )
-{ }
+{
+	_acceptsMultipleValues = true; }
 
 inline MultiSwitchArg::MultiSwitchArg(const std::string& flag,
 					const std::string& name,
@@ -139,6 +140,7 @@ inline MultiSwitchArg::MultiSwitchArg(const std::string& flag,
 _value( init ),
 _allowMore( false )
 {
+	_acceptsMultipleValues = true;
 	parser.add( this );
 }
 
@@ -198,16 +200,16 @@ inline bool MultiSwitchArg::allowMore()
 	return am;
 }
 
-inline std::string MultiSwitchArg::shortID(const std::string& val) const
+inline std::string MultiSwitchArg::shortID(const std::string& /*val*/) const
 {
-	std::string id = Arg::shortID() + " ... " + val;
+	std::string id = Arg::shortID() + " ... ";
 
 	return id;
 }
 
-inline std::string MultiSwitchArg::longID(const std::string& val) const
+inline std::string MultiSwitchArg::longID(const std::string& /*val*/) const
 {
-	std::string id = Arg::longID() + "  (accepted multiple times) " + val;
+	std::string id = Arg::longID() + "  (accepted multiple times)";
 
 	return id;
 }
-- 
2.43.0


From 1ce0f8715929f276d9a42286ab6f1168f93279ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:48 +0000
Subject: [PATCH 009/129] fix: command_line: docbook separates the members of
 every xor group

The number of groups was taken for the number of members of the group.
---
 ecl_command_line/include/ecl/command_line/docbook_output.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_command_line/include/ecl/command_line/docbook_output.hpp b/ecl_command_line/include/ecl/command_line/docbook_output.hpp
index d49bf05..cdda5e1 100644
--- a/ecl_command_line/include/ecl/command_line/docbook_output.hpp
+++ b/ecl_command_line/include/ecl/command_line/docbook_output.hpp
@@ -149,7 +149,7 @@ inline void DocBookOutput::usage(CmdLineInterface& _cmd )
 	for ( int i = 0; (unsigned int)i < xorList.size(); i++ )
 	{
 		std::cout << "<itemizedlist>" << std::endl;
-		size_t xlen = xorList.size() - 1;
+		size_t xlen = xorList[i].size() - 1;
 		size_t xcount = 0;
 		for ( ArgVectorIterator it = xorList[i].begin();
 						it != xorList[i].end(); it++, xcount++ )
-- 
2.43.0


From ae7d3d98741155ea810e2dfae0743f926cce7643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:00 +0000
Subject: [PATCH 010/129] fix: utilities: reference wrappers return the pointer
 they are asked for

pointer() dereferenced its pointer and did not compile when used.
---
 ecl_utilities/include/ecl/utilities/references.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_utilities/include/ecl/utilities/references.hpp b/ecl_utilities/include/ecl/utilities/references.hpp
index 0bc6d13..417e3ed 100644
--- a/ecl_utilities/include/ecl/utilities/references.hpp
+++ b/ecl_utilities/include/ecl/utilities/references.hpp
@@ -124,7 +124,7 @@ public:
      *
      * @return T& : the returned pointer to the wrapped object.
      */
-    T* pointer() const { return *obj_ptr; }
+    T* pointer() const { return obj_ptr; }
 
 private:
     T* obj_ptr;
-- 
2.43.0


From dd359df34df2e7030f17e947b600217c3af6d6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:00 +0000
Subject: [PATCH 011/129] fix: utilities: bound member functions keep the
 result type of the function

The stored pointer was declared to return void, so functions with a result
could not be bound.
---
 ecl_utilities/include/ecl/utilities/function_objects.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ecl_utilities/include/ecl/utilities/function_objects.hpp b/ecl_utilities/include/ecl/utilities/function_objects.hpp
index 28b0ed3..17ea352 100644
--- a/ecl_utilities/include/ecl/utilities/function_objects.hpp
+++ b/ecl_utilities/include/ecl/utilities/function_objects.hpp
@@ -710,7 +710,7 @@ public:
 	}
 private:
 	C &member_class;
-    void (C::*member_function)(A);
+    R (C::*member_function)(A);
 };
 /**
  * @brief Nullary function object for bound unary member functions.
@@ -770,7 +770,7 @@ public:
 	}
 private:
 	C &member_class;
-    void (C::*member_function)(A);
+    R (C::*member_function)(A);
     A argument;
 };
 
@@ -833,7 +833,7 @@ public:
         }
 private:
         C &member_class;
-        void (C::*member_function)(A, B);
+        R (C::*member_function)(A, B);
 };
 /*****************************************************************************
 ** Function Object Wrappers
-- 
2.43.0


From b40cf03e54eecb38ff3b6e2e5701d9e21a582f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:03 +0000
Subject: [PATCH 012/129] fix: devices: string devices remember the room they
 have grown to

---
 ecl_devices/src/lib/string.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ecl_devices/src/lib/string.cpp b/ecl_devices/src/lib/string.cpp
index 7ae0e19..3537626 100644
--- a/ecl_devices/src/lib/string.cpp
+++ b/ecl_devices/src/lib/string.cpp
@@ -49,7 +49,8 @@ void String::grow(int no_bytes) {
     char* new_buffer;
     unsigned long cur_pos = buffer_cur_read - buffer;
     unsigned long cur_end = buffer_cur_write - buffer;
-    new_buffer = new char[size()+no_bytes+1];
+    buffer_length = size()+no_bytes+1;
+    new_buffer = new char[buffer_length];
     memcpy(new_buffer,buffer,size());
     delete [] buffer;
     buffer = new_buffer;
-- 
2.43.0


From 1d0b85c1f163185f6f58e1ac1c6d440d4821ed82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:03 +0000
Subject: [PATCH 013/129] fix: devices: a cleared string device has room for
 its terminator only

---
 ecl_devices/src/lib/string.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_devices/src/lib/string.cpp b/ecl_devices/src/lib/string.cpp
index 3537626..547dfd6 100644
--- a/ecl_devices/src/lib/string.cpp
+++ b/ecl_devices/src/lib/string.cpp
@@ -110,7 +110,7 @@ void String::clear()
 {
     delete [] buffer;
     buffer = new char[1];
-    buffer_length = 0;
+    buffer_length = 1; // Room for the \0 of c_str()
     buffer_cur_write = buffer;
     buffer_cur_read = buffer;
 }
-- 
2.43.0


From f8327c9207e106de35ad45e134a9e9c763a2eb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:03 +0000
Subject: [PATCH 014/129] fix: devices: copies of string devices own their
 buffers

---
 ecl_devices/include/ecl/devices/string.hpp | 12 ++++++++++++
 ecl_devices/src/lib/string.cpp             | 19 +++++++++++++++++++
 2 files changed, 31 insertions(+)

diff --git a/ecl_devices/include/ecl/devices/string.hpp b/ecl_devices/include/ecl/devices/string.hpp
index dcfb2fc..50597a5 100644
--- a/ecl_devices/include/ecl/devices/string.hpp
+++ b/ecl_devices/include/ecl/devices/string.hpp
@@ -57,6 +57,18 @@ public:
 	 * @param str : the input string to store in the buffer.
 	 **/
 	explicit String(const char* str = "");
+	/**
+	 * @brief Copies have a buffer of their own, with the same contents and read position.
+	 *
+	 * @param other : the device to copy.
+	 **/
+	String(const String& other);
+	/**
+	 * @brief Takes over a copy of the contents and read position of another device.
+	 *
+	 * @param other : the device to copy.
+	 **/
+	String& operator=(const String& other);
 	/**
 	 * @brief Cleans up memory allocations.
 	 *
diff --git a/ecl_devices/src/lib/string.cpp b/ecl_devices/src/lib/string.cpp
index 547dfd6..6836e5a 100644
--- a/ecl_devices/src/lib/string.cpp
+++ b/ecl_devices/src/lib/string.cpp
@@ -13,6 +13,7 @@
 #include <iostream>
 #include <cstring>
 #include <string>
+#include <utility>
 #include "../../include/ecl/devices/string.hpp"
 
 /*****************************************************************************
@@ -32,6 +33,24 @@ String::String(const char* str)
     buffer_cur_write = buffer + buffer_length - 1;
     buffer_cur_read = buffer;
 }
+String::String(const String& other) :
+    buffer_length(other.buffer_length),
+    buffer(new char[other.buffer_length]),
+    buffer_cur_write(buffer + (other.buffer_cur_write - other.buffer)),
+    buffer_cur_read(buffer + (other.buffer_cur_read - other.buffer))
+{
+    memcpy(buffer,other.buffer,buffer_cur_write - buffer);
+}
+String& String::operator=(const String& other) {
+    if ( this != &other ) {
+        String copy(other);
+        std::swap(buffer_length,copy.buffer_length);
+        std::swap(buffer,copy.buffer);
+        std::swap(buffer_cur_write,copy.buffer_cur_write);
+        std::swap(buffer_cur_read,copy.buffer_cur_read);
+    }
+    return *this;
+}
 String::~String() {
     delete [] buffer;
 }
-- 
2.43.0


From ef8d3f5dce7c91ed7808c8335f82a406ee19ce40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:13 +0000
Subject: [PATCH 015/129] fix: containers: constant array blueprints keep their
 value

---
 ecl_containers/include/ecl/containers/array/array_mem_check.hpp | 2 +-
 .../include/ecl/containers/array/array_no_mem_check.hpp         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecl_containers/include/ecl/containers/array/array_mem_check.hpp b/ecl_containers/include/ecl/containers/array/array_mem_check.hpp
index d9c53ee..bb24e61 100644
--- a/ecl_containers/include/ecl/containers/array/array_mem_check.hpp
+++ b/ecl_containers/include/ecl/containers/array/array_mem_check.hpp
@@ -592,7 +592,7 @@ class ConstantArray : public ArrayBluePrint< ConstantArray<Type, Size> > {
         }
 
     private:
-        const Type& val;
+        Type val;
 };
 
 /**
diff --git a/ecl_containers/include/ecl/containers/array/array_no_mem_check.hpp b/ecl_containers/include/ecl/containers/array/array_no_mem_check.hpp
index 9f3562f..7799ed9 100644
--- a/ecl_containers/include/ecl/containers/array/array_no_mem_check.hpp
+++ b/ecl_containers/include/ecl/containers/array/array_no_mem_check.hpp
@@ -498,7 +498,7 @@ class ConstantArray : public ArrayBluePrint< ConstantArray<Type, Size> > {
         }
 
     private:
-        const Type& val;
+        Type val;
 };
 
 /**
-- 
2.43.0


From 9fae157d731da6bd9297d7ecdde87d955183d3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:13 +0000
Subject: [PATCH 016/129] fix: containers: assigning a dynamic array to itself
 keeps its contents

---
 .../include/ecl/containers/array/array_dynamic_mem_check.hpp   | 3 +++
 .../ecl/containers/array/array_dynamic_no_mem_check.hpp        | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/ecl_containers/include/ecl/containers/array/array_dynamic_mem_check.hpp b/ecl_containers/include/ecl/containers/array/array_dynamic_mem_check.hpp
index 6c36486..a3b76ed 100644
--- a/ecl_containers/include/ecl/containers/array/array_dynamic_mem_check.hpp
+++ b/ecl_containers/include/ecl/containers/array/array_dynamic_mem_check.hpp
@@ -255,6 +255,9 @@ class ECL_PUBLIC Array<Type,DynamicStorage> : public BluePrintFactory< Array<Typ
         }
 
         void operator=(const Array<Type,DynamicStorage>& array) {
+        	if ( &array == this ) {
+        		return;
+        	}
         	if ( array.size() == 0 ) {
         		clear();
         	} else {
diff --git a/ecl_containers/include/ecl/containers/array/array_dynamic_no_mem_check.hpp b/ecl_containers/include/ecl/containers/array/array_dynamic_no_mem_check.hpp
index 539443d..eab6d2f 100644
--- a/ecl_containers/include/ecl/containers/array/array_dynamic_no_mem_check.hpp
+++ b/ecl_containers/include/ecl/containers/array/array_dynamic_no_mem_check.hpp
@@ -242,6 +242,9 @@ class ECL_PUBLIC Array<Type,DynamicStorage> : public BluePrintFactory< Array<Typ
         }
 
         void operator=(const Array<Type,DynamicStorage>& array) {
+        	if ( &array == this ) {
+        		return;
+        	}
         	if ( array.size() == 0 ) {
         		clear();
         	} else {
-- 
2.43.0


From 486df9a4bc5862a5b463341bc3767e0776a2d12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:13 +0000
Subject: [PATCH 017/129] fix: containers: guarded dynamic arrays align,
 construct and destroy their elements

---
 .../array/array_dynamic_mem_check.hpp         | 82 ++++++++++++-------
 1 file changed, 51 insertions(+), 31 deletions(-)

diff --git a/ecl_containers/include/ecl/containers/array/array_dynamic_mem_check.hpp b/ecl_containers/include/ecl/containers/array/array_dynamic_mem_check.hpp
index a3b76ed..2032dc9 100644
--- a/ecl_containers/include/ecl/containers/array/array_dynamic_mem_check.hpp
+++ b/ecl_containers/include/ecl/containers/array/array_dynamic_mem_check.hpp
@@ -17,6 +17,7 @@
 *****************************************************************************/
 
 #include <algorithm>
+#include <new>
 #include <cstdlib>
 #include <cstdio>
 #include <ecl/config/macros.hpp>
@@ -162,20 +163,12 @@ class ECL_PUBLIC Array<Type,DynamicStorage> : public BluePrintFactory< Array<Typ
          * @param reserve_size : the number of elements to be allocated to the container.
          */
         explicit Array(const unsigned int reserve_size) :
-        		buffer_size(reserve_size),
+        		buffer_size(0),
         		underrun(NULL),
         		buffer(NULL),
         		overrun(NULL)
 			{
-        	underrun = (char*) malloc(buffer_size*sizeof(Type)+bufferUnderrunLength()+bufferOverrunLength());
-        	ecl_assert_throw(underrun != NULL, StandardException(LOC,MemoryError,"Failed to allocate memory to the dynamic array."));
-        	buffer = (Type*) (underrun+bufferUnderrunLength());
-        	overrun = (char*) underrun+bufferUnderrunLength()+buffer_size*sizeof(Type);
-        	// Leave it uninitialised, just like eigen containers...faster
-//        	for ( unsigned int i = 0; i < buffer_size; ++i ) {
-//        		buffer[i] = Type();
-//        	}
-			initialiseMagicSections();
+        	allocate(reserve_size);
         };
         /**
          * @brief Copy constructor.
@@ -226,13 +219,7 @@ class ECL_PUBLIC Array<Type,DynamicStorage> : public BluePrintFactory< Array<Typ
          * It cleans up the memory that was used on the heap.
          **/
         ~Array() {
-
-            if ( underrun != NULL ) {
-                free(underrun);
-            }
-            underrun = NULL;
-            buffer = NULL;
-            overrun = NULL;
+            clear();
         }
         /*********************
         ** Assignment
@@ -497,19 +484,8 @@ class ECL_PUBLIC Array<Type,DynamicStorage> : public BluePrintFactory< Array<Typ
          * @param n : the new size to be allocated for the array.
          */
         void resize( size_t n )  {
-        	if ( underrun != NULL ) {
-        		free(underrun);
-        	}
-            buffer_size = n;
-        	underrun = (char*) malloc(buffer_size*sizeof(Type)+bufferUnderrunLength()+bufferOverrunLength());
-        	ecl_assert_throw(underrun != NULL, StandardException(LOC,MemoryError,"Failed to allocate memory to the dynamic array."));
-        	buffer = (Type*) (underrun+bufferUnderrunLength());
-        	overrun = (char*) underrun+bufferUnderrunLength()+buffer_size*sizeof(Type);
-        	// Leave it uninitialised, just like eigen containers...faster
-//        	for ( unsigned int i = 0; i < buffer_size; ++i ) {
-//        		buffer[i] = Type();
-//        	}
-            initialiseMagicSections();
+        	clear();
+        	allocate(n);
         }
         /**
          * @brief Clear the array, deleting all storage space previously allocated.
@@ -518,6 +494,7 @@ class ECL_PUBLIC Array<Type,DynamicStorage> : public BluePrintFactory< Array<Typ
          */
         void clear() {
         	if ( underrun != NULL ) {
+        		destroy(buffer_size);
         		free(underrun);
         		underrun = NULL;
         		buffer = NULL;
@@ -548,13 +525,15 @@ class ECL_PUBLIC Array<Type,DynamicStorage> : public BluePrintFactory< Array<Typ
 
     private:
         void initialiseMagicSections();
+        void allocate(size_t n);
+        void destroy(size_t n);
 
          static const unsigned int& bufferOverrunLength() {
             static const unsigned int buffer_overrun_length = 4;
             return buffer_overrun_length;
         }
         static const unsigned int& bufferUnderrunLength() {
-            static const unsigned int buffer_underrun_length = 4;
+            static const unsigned int buffer_underrun_length = 16; // keeps the elements aligned
             return buffer_underrun_length;
         }
         static const char& magicChar() {
@@ -587,6 +566,47 @@ void Array<Type,DynamicStorage>::initialiseMagicSections() {
 		*(overrun+i) = magicChar();
 	}
 }
+/**
+ * @brief Allocates storage framed by the magic sections and constructs the elements.
+ *
+ * Elements of fundamental types are left uninitialised, just like eigen containers...faster.
+ *
+ * @param n : the number of elements.
+ */
+template<typename Type>
+void Array<Type,DynamicStorage>::allocate(size_t n) {
+	underrun = (char*) malloc(n*sizeof(Type)+bufferUnderrunLength()+bufferOverrunLength());
+	ecl_assert_throw(underrun != NULL, StandardException(LOC,MemoryError,"Failed to allocate memory to the dynamic array."));
+	buffer = (Type*) (underrun+bufferUnderrunLength());
+	overrun = underrun+bufferUnderrunLength()+n*sizeof(Type);
+	initialiseMagicSections();
+	size_t i = 0;
+	try {
+		for ( ; i < n; ++i ) {
+			::new (static_cast<void*>(buffer+i)) Type;
+		}
+	} catch (...) {
+		destroy(i);
+		free(underrun);
+		underrun = NULL;
+		buffer = NULL;
+		overrun = NULL;
+		throw;
+	}
+	buffer_size = n;
+}
+/**
+ * @brief Destroys the elements at the front of the storage.
+ *
+ * @param n : the number of elements.
+ */
+template<typename Type>
+void Array<Type,DynamicStorage>::destroy(size_t n) {
+	while ( n > 0 ) {
+		--n;
+		buffer[n].~Type();
+	}
+}
 /**
  * @brief Manual handle to check for buffer underruns.
  *
-- 
2.43.0


From bfa1f2f21a41b7778958ea474375f6b85c55ba72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:13 +0000
Subject: [PATCH 018/129] fix: containers: a resize that fails leaves an empty
 dynamic array

---
 .../ecl/containers/array/array_dynamic_no_mem_check.hpp       | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ecl_containers/include/ecl/containers/array/array_dynamic_no_mem_check.hpp b/ecl_containers/include/ecl/containers/array/array_dynamic_no_mem_check.hpp
index eab6d2f..5dcb15c 100644
--- a/ecl_containers/include/ecl/containers/array/array_dynamic_no_mem_check.hpp
+++ b/ecl_containers/include/ecl/containers/array/array_dynamic_no_mem_check.hpp
@@ -484,9 +484,7 @@ class ECL_PUBLIC Array<Type,DynamicStorage> : public BluePrintFactory< Array<Typ
          * @param n : the new size to be allocated for the array.
          */
         void resize( size_t n ) {
-            if ( buffer != NULL ) {
-                delete[] buffer;
-            }
+            clear(); // leaves an empty array if allocating throws
             buffer = new Type[n];
             buffer_size = n;
         }
-- 
2.43.0


From 65698233b535ae9383510b6f772ac9039d036e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:05 +0000
Subject: [PATCH 019/129] fix: containers: stencils can be filled by comma
 initialisation

---
 ecl_containers/include/ecl/containers/stencil/stencil.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecl_containers/include/ecl/containers/stencil/stencil.hpp b/ecl_containers/include/ecl/containers/stencil/stencil.hpp
index c3f8d30..7aad988 100644
--- a/ecl_containers/include/ecl/containers/stencil/stencil.hpp
+++ b/ecl_containers/include/ecl/containers/stencil/stencil.hpp
@@ -203,9 +203,9 @@ public:
    * @param value : the first value to enter , ElementType, ArraySizeinto the array.
    * @return BoundedListInitialiser : the comma initialiser mechanism.
    */
-  containers::BoundedListInitialiser<value_type,value_type*> operator<< (const value_type &value)
+  containers::BoundedListInitialiser<value_type,iterator> operator<< (const value_type &value)
   {
-    return containers::BoundedListInitialiser<value_type,iterator>(value, begin, size());
+    return containers::BoundedListInitialiser<value_type,iterator>(value, begin(), size());
   }
   /**
    * @brief This either resettles this stencil or copies across to it (depending on the rhs stencil).
-- 
2.43.0


From 754ad2802189caef28450bc9f1044d5ae644d0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:05 +0000
Subject: [PATCH 020/129] fix: containers: stencil indices are checked against
 the window

---
 .../containers/stencil/specialisations.hpp    | 32 +++++++++----------
 .../ecl/containers/stencil/stencil.hpp        | 16 +++++-----
 2 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/ecl_containers/include/ecl/containers/stencil/specialisations.hpp b/ecl_containers/include/ecl/containers/stencil/specialisations.hpp
index 8bcbdbd..72a73a1 100644
--- a/ecl_containers/include/ecl/containers/stencil/specialisations.hpp
+++ b/ecl_containers/include/ecl/containers/stencil/specialisations.hpp
@@ -329,8 +329,8 @@ public:
    **/
   reference operator[](size_type i)
   {
-    ecl_assert_throw( b_iter+i >= array, StandardException(LOC,OutOfRangeError));
-    ecl_assert_throw( b_iter+i <= array+length, StandardException(LOC,OutOfRangeError));
+    ecl_assert_throw( i < size(), StandardException(LOC,OutOfRangeError));
+    ecl_assert_throw( (b_iter+i >= array) && (b_iter+i < array+length), StandardException(LOC,OutOfRangeError));
     return *(b_iter+i);
   }
   /**
@@ -346,8 +346,8 @@ public:
    **/
   const_reference operator[](size_type i) const
   {
-    ecl_assert_throw( b_iter+i >= array, StandardException(LOC,OutOfRangeError));
-    ecl_assert_throw( b_iter+i <= array+length, StandardException(LOC,OutOfRangeError));
+    ecl_assert_throw( i < size(), StandardException(LOC,OutOfRangeError));
+    ecl_assert_throw( (b_iter+i >= array) && (b_iter+i < array+length), StandardException(LOC,OutOfRangeError));
     return *(b_iter+i);
   }
   /**
@@ -362,11 +362,11 @@ public:
    */
   reference at(size_type i)
   {
-    if ( b_iter+i <= array )
+    if ( i >= size() )
     {
       throw StandardException(LOC,OutOfRangeError);
     }
-    if ( b_iter+i >= array+length )
+    if ( (b_iter+i < array) || (b_iter+i >= array+length) )
     {
       throw StandardException(LOC,OutOfRangeError);
     }
@@ -386,11 +386,11 @@ public:
    */
   const_reference at(size_type i) const
   {
-    if ( b_iter+i <= array )
+    if ( i >= size() )
     {
       throw StandardException(LOC,OutOfRangeError);
     }
-    if ( b_iter+i >= array+length )
+    if ( (b_iter+i < array) || (b_iter+i >= array+length) )
     {
       throw StandardException(LOC,OutOfRangeError);
     }
@@ -722,8 +722,8 @@ public:
    **/
   reference operator[](size_type i)
   {
-    ecl_assert_throw( b_iter+i >= array, StandardException(LOC,OutOfRangeError));
-    ecl_assert_throw( b_iter+i <= array+length, StandardException(LOC,OutOfRangeError));
+    ecl_assert_throw( i < size(), StandardException(LOC,OutOfRangeError));
+    ecl_assert_throw( (b_iter+i >= array) && (b_iter+i < array+length), StandardException(LOC,OutOfRangeError));
     return *(b_iter+i);
   }
   /**
@@ -739,8 +739,8 @@ public:
    **/
   const_reference operator[](size_type i) const
   {
-    ecl_assert_throw( b_iter+i >= array, StandardException(LOC,OutOfRangeError));
-    ecl_assert_throw( b_iter+i <= array+length, StandardException(LOC,OutOfRangeError));
+    ecl_assert_throw( i < size(), StandardException(LOC,OutOfRangeError));
+    ecl_assert_throw( (b_iter+i >= array) && (b_iter+i < array+length), StandardException(LOC,OutOfRangeError));
     return *(b_iter+i);
   }
   /**
@@ -755,11 +755,11 @@ public:
    */
   reference at(size_type i)
   {
-    if ( b_iter+i <= array )
+    if ( i >= size() )
     {
       throw StandardException(LOC,OutOfRangeError);
     }
-    if ( b_iter+i >= array+length )
+    if ( (b_iter+i < array) || (b_iter+i >= array+length) )
     {
       throw StandardException(LOC,OutOfRangeError);
     }
@@ -779,11 +779,11 @@ public:
    */
   const_reference at(size_type i) const
   {
-    if ( b_iter+i <= array )
+    if ( i >= size() )
     {
       throw StandardException(LOC,OutOfRangeError);
     }
-    if ( b_iter+i >= array+length )
+    if ( (b_iter+i < array) || (b_iter+i >= array+length) )
     {
       throw StandardException(LOC,OutOfRangeError);
     }
diff --git a/ecl_containers/include/ecl/containers/stencil/stencil.hpp b/ecl_containers/include/ecl/containers/stencil/stencil.hpp
index 7aad988..8ba4191 100644
--- a/ecl_containers/include/ecl/containers/stencil/stencil.hpp
+++ b/ecl_containers/include/ecl/containers/stencil/stencil.hpp
@@ -397,8 +397,8 @@ public:
    **/
   reference operator[](size_type i)
   {
-    ecl_assert_throw( b_iter+i >= array.begin(), StandardException(LOC,OutOfRangeError));
-    ecl_assert_throw( b_iter+i <= array.end(), StandardException(LOC,OutOfRangeError));
+    ecl_assert_throw( i < size(), StandardException(LOC,OutOfRangeError));
+    ecl_assert_throw( (b_iter+i >= array.begin()) && (b_iter+i < array.end()), StandardException(LOC,OutOfRangeError));
     return *(b_iter+i);
   }
   /**
@@ -414,8 +414,8 @@ public:
    **/
   const_reference operator[](size_type i) const
   {
-    ecl_assert_throw( b_iter+i >= array.begin(), StandardException(LOC,OutOfRangeError));
-    ecl_assert_throw( b_iter+i <= array.end(), StandardException(LOC,OutOfRangeError));
+    ecl_assert_throw( i < size(), StandardException(LOC,OutOfRangeError));
+    ecl_assert_throw( (b_iter+i >= array.begin()) && (b_iter+i < array.end()), StandardException(LOC,OutOfRangeError));
     return *(b_iter+i);
   }
   /**
@@ -430,11 +430,11 @@ public:
    */
   reference at(size_type i)
   {
-    if ( b_iter+i <= array.begin() )
+    if ( i >= size() )
     {
       throw StandardException(LOC,OutOfRangeError);
     }
-    if ( b_iter+i >= array.end() )
+    if ( (b_iter+i < array.begin()) || (b_iter+i >= array.end()) )
     {
       throw StandardException(LOC,OutOfRangeError);
     }
@@ -454,11 +454,11 @@ public:
    */
   const_reference at(size_type i) const
   {
-    if ( b_iter+i <= array.begin() )
+    if ( i >= size() )
     {
       throw StandardException(LOC,OutOfRangeError);
     }
-    if ( b_iter+i >= array.end() )
+    if ( (b_iter+i < array.begin()) || (b_iter+i >= array.end()) )
     {
       throw StandardException(LOC,OutOfRangeError);
     }
-- 
2.43.0


From e5d85faf841996d49201d1814f1d46beb5cc6027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:05 +0000
Subject: [PATCH 021/129] fix: containers: a refused move leaves the stencil on
 its window

---
 .../include/ecl/containers/stencil/specialisations.hpp | 10 ++++++----
 .../include/ecl/containers/stencil/stencil.hpp         |  5 +++--
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/ecl_containers/include/ecl/containers/stencil/specialisations.hpp b/ecl_containers/include/ecl/containers/stencil/specialisations.hpp
index 72a73a1..fec5c44 100644
--- a/ecl_containers/include/ecl/containers/stencil/specialisations.hpp
+++ b/ecl_containers/include/ecl/containers/stencil/specialisations.hpp
@@ -139,10 +139,11 @@ public:
   void resettle(const unsigned int& start_index, const unsigned int& n)
   {
 
+    // check before moving, a refused window leaves the stencil where it is
+    ecl_assert_throw(start_index <= length, StandardException(LOC, OutOfRangeError, "Begin iterator out of range."));
+    ecl_assert_throw(n <= length-start_index, StandardException(LOC, OutOfRangeError, "End iterator out of range."));
     b_iter = array+start_index;
     e_iter = array+start_index+n;
-    ecl_assert_throw((b_iter <= array + length), StandardException(LOC, OutOfRangeError, "Begin iterator out of range."));
-    ecl_assert_throw((e_iter <= array + length), StandardException(LOC, OutOfRangeError, "End iterator out of range."));
   }
 
   /*********************
@@ -553,10 +554,11 @@ public:
   void resettle(const unsigned int& start_index, const unsigned int& n)
   {
 
+    // check before moving, a refused window leaves the stencil where it is
+    ecl_assert_throw(start_index <= length, StandardException(LOC, OutOfRangeError, "Begin iterator out of range."));
+    ecl_assert_throw(n <= length-start_index, StandardException(LOC, OutOfRangeError, "End iterator out of range."));
     b_iter = array+start_index;
     e_iter = array+start_index+n;
-    ecl_assert_throw((b_iter <= array + length), StandardException(LOC, OutOfRangeError, "Begin iterator out of range."));
-    ecl_assert_throw((e_iter <= array + length), StandardException(LOC, OutOfRangeError, "End iterator out of range."));
   }
   /**
    * @brief This either resettles this stencil or copies across to it (depending on the rhs stencil).
diff --git a/ecl_containers/include/ecl/containers/stencil/stencil.hpp b/ecl_containers/include/ecl/containers/stencil/stencil.hpp
index 8ba4191..3b11236 100644
--- a/ecl_containers/include/ecl/containers/stencil/stencil.hpp
+++ b/ecl_containers/include/ecl/containers/stencil/stencil.hpp
@@ -181,10 +181,11 @@ public:
   void resettle(const unsigned int& start_index, const unsigned int& n)
   {
 
+    // check before moving, a refused window leaves the stencil where it is
+    ecl_assert_throw(start_index <= array.size(), StandardException(LOC, OutOfRangeError, "Begin iterator out of range."));
+    ecl_assert_throw(n <= array.size()-start_index, StandardException(LOC, OutOfRangeError, "End iterator out of range."));
     b_iter = array.begin()+start_index;
     e_iter = array.begin()+start_index+n;
-    ecl_assert_throw((b_iter >= array.begin()) && (b_iter <= array.end()), StandardException(LOC, OutOfRangeError, "Begin iterator out of range."));
-    ecl_assert_throw((e_iter >= array.begin()) && (e_iter <= array.end()), StandardException(LOC, OutOfRangeError, "End iterator out of range."));
   }
 
   /*********************
-- 
2.43.0


From 06bab3a5866e1cf7b4ddb00eb739d7abf2980ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:05 +0000
Subject: [PATCH 022/129] fix: containers: stencils refuse windows that end
 before they begin or begin before the storage

---
 .../ecl/containers/stencil/specialisations.hpp   | 16 ++++++++--------
 .../include/ecl/containers/stencil/stencil.hpp   |  4 ++--
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/ecl_containers/include/ecl/containers/stencil/specialisations.hpp b/ecl_containers/include/ecl/containers/stencil/specialisations.hpp
index fec5c44..916d1f3 100644
--- a/ecl_containers/include/ecl/containers/stencil/specialisations.hpp
+++ b/ecl_containers/include/ecl/containers/stencil/specialisations.hpp
@@ -75,8 +75,8 @@ public:
   b_iter(begin_iter),
   e_iter(end_iter)
   {
-    ecl_assert_throw((b_iter <= array+length), StandardException(LOC, OutOfRangeError, "Begin iterator out of range."));
-    ecl_assert_throw((e_iter <= array+length), StandardException(LOC, OutOfRangeError, "End iterator out of range."));
+    ecl_assert_throw((b_iter >= array) && (b_iter <= array+length), StandardException(LOC, OutOfRangeError, "Begin iterator out of range."));
+    ecl_assert_throw((e_iter >= b_iter) && (e_iter <= array+length), StandardException(LOC, OutOfRangeError, "End iterator out of range."));
   }
 
   /**
@@ -98,8 +98,8 @@ public:
   b_iter(array+start_index),
   e_iter(array+start_index+n)
   {
-    ecl_assert_throw((b_iter <= array+length), StandardException(LOC, OutOfRangeError, "Begin iterator out of range."));
-    ecl_assert_throw((e_iter <= array+length), StandardException(LOC, OutOfRangeError, "End iterator out of range."));
+    ecl_assert_throw((b_iter >= array) && (b_iter <= array+length), StandardException(LOC, OutOfRangeError, "Begin iterator out of range."));
+    ecl_assert_throw((e_iter >= b_iter) && (e_iter <= array+length), StandardException(LOC, OutOfRangeError, "End iterator out of range."));
   }
 
   virtual ~Stencil()
@@ -490,8 +490,8 @@ public:
   b_iter(begin_iter),
   e_iter(end_iter)
   {
-    ecl_assert_throw((b_iter <= array+length), StandardException(LOC, OutOfRangeError, "Begin iterator out of range."));
-    ecl_assert_throw((e_iter <= array+length), StandardException(LOC, OutOfRangeError, "End iterator out of range."));
+    ecl_assert_throw((b_iter >= array) && (b_iter <= array+length), StandardException(LOC, OutOfRangeError, "Begin iterator out of range."));
+    ecl_assert_throw((e_iter >= b_iter) && (e_iter <= array+length), StandardException(LOC, OutOfRangeError, "End iterator out of range."));
   }
 
   /**
@@ -513,8 +513,8 @@ public:
   b_iter(array+start_index),
   e_iter(array+start_index+n)
   {
-    ecl_assert_throw((b_iter <= array+length), StandardException(LOC, OutOfRangeError, "Begin iterator out of range."));
-    ecl_assert_throw((e_iter <= array+length), StandardException(LOC, OutOfRangeError, "End iterator out of range."));
+    ecl_assert_throw((b_iter >= array) && (b_iter <= array+length), StandardException(LOC, OutOfRangeError, "Begin iterator out of range."));
+    ecl_assert_throw((e_iter >= b_iter) && (e_iter <= array+length), StandardException(LOC, OutOfRangeError, "End iterator out of range."));
   }
 
   virtual ~Stencil()
diff --git a/ecl_containers/include/ecl/containers/stencil/stencil.hpp b/ecl_containers/include/ecl/containers/stencil/stencil.hpp
index 3b11236..e163b7b 100644
--- a/ecl_containers/include/ecl/containers/stencil/stencil.hpp
+++ b/ecl_containers/include/ecl/containers/stencil/stencil.hpp
@@ -117,7 +117,7 @@ public:
   {
     ecl_compile_time_concept_check(ContainerConcept<Array>);
     ecl_assert_throw((b_iter >= array.begin()) && (b_iter <= array.end()), StandardException(LOC, OutOfRangeError, "Begin iterator out of range."));
-    ecl_assert_throw((e_iter >= array.begin()) && (e_iter <= array.end()), StandardException(LOC, OutOfRangeError, "End iterator out of range."));
+    ecl_assert_throw((e_iter >= b_iter) && (e_iter <= array.end()), StandardException(LOC, OutOfRangeError, "End iterator out of range."));
   }
 
   /**
@@ -142,7 +142,7 @@ public:
   {
     ecl_compile_time_concept_check(ContainerConcept<Array>);
     ecl_assert_throw((b_iter >= array.begin()) && (b_iter <= array.end()), StandardException(LOC, OutOfRangeError, "Begin iterator out of range."));
-    ecl_assert_throw((e_iter >= array.begin()) && (e_iter <= array.end()), StandardException(LOC, OutOfRangeError, "End iterator out of range."));
+    ecl_assert_throw((e_iter >= b_iter) && (e_iter <= array.end()), StandardException(LOC, OutOfRangeError, "End iterator out of range."));
   }
 
   virtual ~Stencil()
-- 
2.43.0


From d2b2afb2cbf2a11aab64f0a36a78b4e715998e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:02 +0000
Subject: [PATCH 023/129] fix: containers: a resized fifo starts over within
 its new size

---
 ecl_containers/include/ecl/containers/fifo.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ecl_containers/include/ecl/containers/fifo.hpp b/ecl_containers/include/ecl/containers/fifo.hpp
index 2dddcc8..9af57ec 100644
--- a/ecl_containers/include/ecl/containers/fifo.hpp
+++ b/ecl_containers/include/ecl/containers/fifo.hpp
@@ -165,9 +165,10 @@ public:
 	 * @exception StandardException : throws if a zero sized storage is specified.
 	 */
 	void resize( unsigned int length ) {
+		ecl_assert_throw( (length>0), StandardException(LOC, OutOfRangeError, "SimpleFIFO start with zero size buffer"));
+		data.resize( length );
 		size_fifo = length;
-		ecl_assert_throw( (size_fifo>0), StandardException(LOC, OutOfRangeError, "SimpleFIFO start with zero size buffer"));
-		data.resize( size_fifo );
+		running_index = 0;
 	}
 
 private:
-- 
2.43.0


From 11ce90dc8967359966f7ea8809f33d2a585029f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:02 +0000
Subject: [PATCH 024/129] fix: containers: indexing a fifo without storage is
 refused

---
 ecl_containers/include/ecl/containers/fifo.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ecl_containers/include/ecl/containers/fifo.hpp b/ecl_containers/include/ecl/containers/fifo.hpp
index 9af57ec..9e9ab58 100644
--- a/ecl_containers/include/ecl/containers/fifo.hpp
+++ b/ecl_containers/include/ecl/containers/fifo.hpp
@@ -120,6 +120,7 @@ public:
 	 * @return T& : reference (modifiable) to the indexed element.
 	 */
 	T & operator[] (int idx) {
+		ecl_assert_throw( (size_fifo>0), StandardException(LOC, OutOfRangeError, "The fifo has no storage."));
 		return data[ ((running_index+idx)%size_fifo) ];
 	}
 
@@ -130,6 +131,7 @@ public:
 	 * @return const T& : const reference to the indexed element.
 	 */
 	const T & operator[] (int idx) const {
+		ecl_assert_throw( (size_fifo>0), StandardException(LOC, OutOfRangeError, "The fifo has no storage."));
 		return data[ ((running_index+idx)%size_fifo) ];
 	}
 
-- 
2.43.0


From 0323a8594b876166ee9814acad4949cbc028251a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:02 +0000
Subject: [PATCH 025/129] fix: containers: a resized push and pop buffer starts
 over within its new size

---
 .../include/ecl/containers/push_and_pop/push_and_pop_dynamic.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ecl_containers/include/ecl/containers/push_and_pop/push_and_pop_dynamic.hpp b/ecl_containers/include/ecl/containers/push_and_pop/push_and_pop_dynamic.hpp
index 22883b8..cdcc31f 100644
--- a/ecl_containers/include/ecl/containers/push_and_pop/push_and_pop_dynamic.hpp
+++ b/ecl_containers/include/ecl/containers/push_and_pop/push_and_pop_dynamic.hpp
@@ -251,6 +251,7 @@ public:
     size_fifo = length+1;
     ecl_assert_throw( (size_fifo>0), StandardException(LOC, OutOfRangeError, "SimpleFIFO start with zero size buffer"));
     data.resize( size_fifo );
+    clear();
   }
 
   /**
-- 
2.43.0


From e650fbd9b6284601f246ac9f300e93c36af49bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:02 +0000
Subject: [PATCH 026/129] fix: containers: a push and pop buffer of zero length
 can be used

---
 .../ecl/containers/push_and_pop/push_and_pop_dynamic.hpp        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_containers/include/ecl/containers/push_and_pop/push_and_pop_dynamic.hpp b/ecl_containers/include/ecl/containers/push_and_pop/push_and_pop_dynamic.hpp
index cdcc31f..7527e37 100644
--- a/ecl_containers/include/ecl/containers/push_and_pop/push_and_pop_dynamic.hpp
+++ b/ecl_containers/include/ecl/containers/push_and_pop/push_and_pop_dynamic.hpp
@@ -87,7 +87,7 @@ public:
    *
    * Creates a dynamic push and pop container of zero length.
    */
-  PushAndPop() : size_fifo(0), leader(0), follower(0) {}
+  PushAndPop() : size_fifo(1), leader(0), follower(0) { data.resize( size_fifo ); }
 
   PushAndPop( const unsigned int length )
   : size_fifo(length+1), leader(0), follower(0)
-- 
2.43.0


From 877c355a908d703e6e9b4b07651e604e33146a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:02 +0000
Subject: [PATCH 027/129] fix: containers: copying onto a dynamic push and pop
 buffer takes over the size

---
 .../ecl/containers/push_and_pop/push_and_pop_dynamic.hpp    | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ecl_containers/include/ecl/containers/push_and_pop/push_and_pop_dynamic.hpp b/ecl_containers/include/ecl/containers/push_and_pop/push_and_pop_dynamic.hpp
index 7527e37..efdd30f 100644
--- a/ecl_containers/include/ecl/containers/push_and_pop/push_and_pop_dynamic.hpp
+++ b/ecl_containers/include/ecl/containers/push_and_pop/push_and_pop_dynamic.hpp
@@ -207,12 +207,10 @@ public:
 
   void operator() (const PushAndPop<Type,0> & otherOne )
   {
+    data = otherOne.data;
+    size_fifo = otherOne.size_fifo;
     leader = otherOne.leader;
     follower = otherOne.follower;
-    for( int i=0; i<size_fifo; i++ )
-    {
-      data[i] = otherOne.data[i];
-    }
   }
 
   /**
-- 
2.43.0


From 90f6c39887964e0a86b928ce7ac39da0d7e3179e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:31 +0000
Subject: [PATCH 028/129] fix: converters: byte arrays of more than four bytes
 convert to the value they hold

---
 ecl_converters/include/ecl/converters/from_byte_array.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ecl_converters/include/ecl/converters/from_byte_array.hpp b/ecl_converters/include/ecl/converters/from_byte_array.hpp
index 54cefbf..626a98e 100644
--- a/ecl_converters/include/ecl/converters/from_byte_array.hpp
+++ b/ecl_converters/include/ecl/converters/from_byte_array.hpp
@@ -85,6 +85,7 @@ public:
       ecl_debug_throw(
           StandardException(LOC,ConversionError,"The byte array is too long for the integral type specified."));
       error_handler = ConversionError;
+      return static_cast<Integral>(0);
     }
     /*********************
      ** Method
@@ -92,7 +93,7 @@ public:
     typename ecl::Unsigned<Integral>::type unsigned_value = 0;
     for (unsigned int i = 0; i < byte_array.size(); ++i)
     {
-      unsigned_value |= static_cast<unsigned char>(byte_array[i]) << 8 * i;
+      unsigned_value |= static_cast<typename ecl::Unsigned<Integral>::type>(static_cast<unsigned char>(byte_array[i])) << 8 * i;
     }
     if (ecl::is_signed<Integral>::value)
     {
-- 
2.43.0


From 3a1a3279ba8af7b881dd7480c1cf08a4f20097e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:31 +0000
Subject: [PATCH 029/129] fix: converters: hex text that ends within a byte is
 an error

---
 ecl_converters/include/ecl/converters/to_byte_array.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ecl_converters/include/ecl/converters/to_byte_array.hpp b/ecl_converters/include/ecl/converters/to_byte_array.hpp
index 3cc8c40..dbb9adb 100644
--- a/ecl_converters/include/ecl/converters/to_byte_array.hpp
+++ b/ecl_converters/include/ecl/converters/to_byte_array.hpp
@@ -385,6 +385,12 @@ public:
       }
       ++input;
     }
+    if (state != waiting_zero)
+    {
+      ecl_debug_throw(StandardException(LOC,ConversionError));
+      error_handler = ConversionError;
+      bytes.clear();
+    }
     return bytes;
   }
   ;
-- 
2.43.0


From 5c7664eaea4e6d21b089f661ae8e1d2f3711324e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:31 +0000
Subject: [PATCH 030/129] fix: converters: the lowest integers and negative
 chars convert to text

---
 ecl_converters/include/ecl/converters/char_strings.hpp | 4 ++--
 ecl_converters/include/ecl/converters/string.hpp       | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/ecl_converters/include/ecl/converters/char_strings.hpp b/ecl_converters/include/ecl/converters/char_strings.hpp
index 7445cf3..73b7ef6 100644
--- a/ecl_converters/include/ecl/converters/char_strings.hpp
+++ b/ecl_converters/include/ecl/converters/char_strings.hpp
@@ -146,7 +146,7 @@ char* convertSignedIntegral(const Number &number, char* buffer_begin, char* buff
     if ( number >= 0 ) {
         s = convertUnsignedIntegral(static_cast<UnsignedNumber>(number),buffer_begin,buffer_end);
     } else {
-        s = convertUnsignedIntegral(static_cast<UnsignedNumber>(-1*number),buffer_begin+1,buffer_end);
+        s = convertUnsignedIntegral(static_cast<UnsignedNumber>(0-static_cast<UnsignedNumber>(number)),buffer_begin+1,buffer_end);
         if (s == NULL) {
           return NULL;
         }
@@ -211,7 +211,7 @@ class Converter<char*,char> : public virtual converters::CharStringBuffer {
          * @returns char* : output text string.
          **/
         char* operator ()(const char &input) {
-            return converters::convertUnsignedIntegral(input,this->buffer_begin,this->buffer_end);
+            return converters::convertSignedIntegral(input,this->buffer_begin,this->buffer_end);
         }
 };
 /*****************************************************************************
diff --git a/ecl_converters/include/ecl/converters/string.hpp b/ecl_converters/include/ecl/converters/string.hpp
index eb9d79b..a087c27 100644
--- a/ecl_converters/include/ecl/converters/string.hpp
+++ b/ecl_converters/include/ecl/converters/string.hpp
@@ -73,14 +73,14 @@ public:
 			char_string = buffer + 30;
 		#endif
 		*char_string = '\0';
-		int remaining = input;
+		unsigned int remaining = static_cast<unsigned int>(input);
 		unsigned int lsd;
 		/*********************
 		** Fix sign
 		**********************/
-		if (remaining < 0 ) {
+		if (input < 0 ) {
 			negative = true;
-			remaining *= -1;
+			remaining = 0 - remaining;
 		}
 		do
 		{
-- 
2.43.0


From 33c4c13009fd371ee17b9e39a80f0686df0dcc16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:31 +0000
Subject: [PATCH 031/129] fix: converters: booleans are not written past the
 end of the buffer

---
 ecl_converters/include/ecl/converters/char_strings.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ecl_converters/include/ecl/converters/char_strings.hpp b/ecl_converters/include/ecl/converters/char_strings.hpp
index 73b7ef6..6f87410 100644
--- a/ecl_converters/include/ecl/converters/char_strings.hpp
+++ b/ecl_converters/include/ecl/converters/char_strings.hpp
@@ -76,12 +76,14 @@ class CharStringBuffer : public ConverterBase {
          **/
         CharStringBuffer(int buffer_size = 250) : delete_buffer(true) {
            	buffer_begin = new (std::nothrow) char[buffer_size];
-            *(buffer_begin + buffer_size - 1) = '\0';
-            buffer_end = buffer_begin + buffer_size - 1;
            	if ( buffer_begin == NULL ) {
+           		buffer_end = NULL;
            		ecl_debug_throw(ecl::StandardException(LOC,ecl::MemoryError,"Failed to allocate memory for the char string buffer."));
            		error_handler = ecl::MemoryError;
+           		return;
            	}
+            *(buffer_begin + buffer_size - 1) = '\0';
+            buffer_end = buffer_begin + buffer_size - 1;
         }
         /**
          * Default destructor. If a buffer was initialised by this object, it is deleted.
@@ -835,6 +837,7 @@ class Converter<char*,bool> : public virtual converters::CharStringBuffer {
          * @returns char* : output text string.
          **/
         char* operator ()(const bool &input){
+            if ( buffer_end - buffer_begin < ( input ? 4 : 5 ) ) { return NULL; }
             *buffer_begin = '\0';
             input ? strcat(buffer_begin,"true") : strcat (buffer_begin,"false");
             return buffer_begin;
-- 
2.43.0


From dcfa5f9a64eedbf11ad4934c6eb3783e6c9c0cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:31 +0000
Subject: [PATCH 032/129] fix: converters: failed conversions to integers
 return the documented values

---
 ecl_converters/include/ecl/converters/integers.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ecl_converters/include/ecl/converters/integers.hpp b/ecl_converters/include/ecl/converters/integers.hpp
index f8fc62d..02893d0 100644
--- a/ecl_converters/include/ecl/converters/integers.hpp
+++ b/ecl_converters/include/ecl/converters/integers.hpp
@@ -18,6 +18,7 @@
 ** Includes
 *****************************************************************************/
 
+#include <limits>
 #include <string>
 #include <sstream>
 #include <ecl/exceptions/standard_exception.hpp>
@@ -55,12 +56,13 @@ public:
 	 * @exception StandardException : throws if conversion failed (debug mode only).
 	 **/
 	int operator()(const std::string &input) {
-		int i;
+		int i(0);
 		std::istringstream stream(input);
 		char c;
 		if ( !( stream >> i ) || (stream.get(c))) { // Second part checks that there isn't leftover characters
 			ecl_debug_throw(StandardException(LOC,ConversionError));
 			error_handler = ConversionError;
+			return std::numeric_limits<int>::min();
 		}
 		return i;
 	}
@@ -89,6 +91,7 @@ public:
 		if ( ( c < '0' ) || (c > '9') ) {
 			ecl_debug_throw(StandardException(LOC,ConversionError));
 			error_handler = ConversionError;
+			return -1;
 		}
 		return static_cast<int>(c - '0');
 	}
-- 
2.43.0


From 1782361ac66c15ddd68f207cc47acd0b8078dcf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:06 +0000
Subject: [PATCH 033/129] fix: formatters: floats of any size and precision are
 shown in full

---
 .../include/ecl/formatters/floats.hpp         | 27 +++++--------------
 1 file changed, 6 insertions(+), 21 deletions(-)

diff --git a/ecl_formatters/include/ecl/formatters/floats.hpp b/ecl_formatters/include/ecl/formatters/floats.hpp
index ace8dbe..607a2fa 100644
--- a/ecl_formatters/include/ecl/formatters/floats.hpp
+++ b/ecl_formatters/include/ecl/formatters/floats.hpp
@@ -17,7 +17,7 @@
 *****************************************************************************/
 
 #include <cstdio>   // snprintf
-#include <cstring>  // strlen
+#include <vector>
 #include "common.hpp"
 #include <ecl/exceptions/standard_exception.hpp>
 
@@ -364,31 +364,16 @@ template <typename Number>
   template <typename OutputStream>
 void FormatFloat<Number>::formatFixed(OutputStream &ostream) const
 {
-    static char format_specifier[6] = "%.xff";
-    if ( *precision_ < 10 ) {
-        format_specifier[2] = '0'+*precision_;
-        format_specifier[3] = 'f';
-        format_specifier[4] = '\0';
-    } else if ( *precision_ < 20 )  {
-        format_specifier[2] = '1';
-        format_specifier[3] = '0'+(*precision_ - 10);
-        format_specifier[4] = 'f';
-    } else {
-        format_specifier[2] = '2';
-        format_specifier[3] = '0';
-        format_specifier[4] = 'f';
-    }
-    static const int buffer_size = 30;
-    static char buffer[buffer_size];
-
-    snprintf(buffer, buffer_size, format_specifier, value_);
+    int length = snprintf(NULL, 0, "%.*f", *precision_, static_cast<double>(value_));
+    if ( length < 0 ) { return; }
+    std::vector<char> buffer(length + 1);
+    snprintf(&buffer[0], buffer.size(), "%.*f", *precision_, static_cast<double>(value_));
 
     /******************************************
     ** Streaming out
     *******************************************/
-    int length = strlen(buffer);
     prePad(*width_ - length,ostream);
-    ostream << buffer;
+    ostream << &buffer[0];
     postPad(*width_ - length,ostream);
 }
 
-- 
2.43.0


From bcbc1007dbb8070c3ade09a8d8318745c57c54de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:06 +0000
Subject: [PATCH 034/129] fix: formatters: settings given with a value apply to
 that output only

---
 ecl_formatters/include/ecl/formatters/floats.hpp  | 10 ++++++----
 ecl_formatters/include/ecl/formatters/number.hpp  |  2 ++
 ecl_formatters/include/ecl/formatters/strings.hpp | 15 ++++++++++-----
 ecl_formatters/src/lib/strings.cpp                | 10 +++++++---
 4 files changed, 25 insertions(+), 12 deletions(-)

diff --git a/ecl_formatters/include/ecl/formatters/floats.hpp b/ecl_formatters/include/ecl/formatters/floats.hpp
index 607a2fa..281971b 100644
--- a/ecl_formatters/include/ecl/formatters/floats.hpp
+++ b/ecl_formatters/include/ecl/formatters/floats.hpp
@@ -319,15 +319,15 @@ FormatFloat<Number>& FormatFloat<Number>::operator()(const Number n)
 template <typename Number>
 FormatFloat<Number>& FormatFloat<Number>::operator() (const Number n, unsigned int p, const int w)
 {
+    alignment_ = &tmp_alignment;
+    tmp_alignment = prm_alignment;
+
     width_ = &tmp_width;
     width(w);
 
     precision_ = &tmp_precision;
     precision(p);
 
-    alignment_ = &tmp_alignment;
-    align(prm_alignment);
-
     base_ = &tmp_base;
     base(prm_base);
 
@@ -339,13 +339,15 @@ FormatFloat<Number>& FormatFloat<Number>::operator() (const Number n, unsigned i
 template <typename Number>
 FormatFloat<Number>& FormatFloat<Number>::operator() (const Number n, const unsigned int p, const int w, const ecl::Alignment a, const ecl::FloatBase b)
 {
+    alignment_ = &tmp_alignment;
+    tmp_alignment = a;
+
     width_ = &tmp_width;
     width(w);
 
     precision_ = &tmp_precision;
     precision(p);
 
-    alignment_ = &tmp_alignment;
     align(a);
 
     base_ = &tmp_base;
diff --git a/ecl_formatters/include/ecl/formatters/number.hpp b/ecl_formatters/include/ecl/formatters/number.hpp
index d486a06..76f3d3d 100644
--- a/ecl_formatters/include/ecl/formatters/number.hpp
+++ b/ecl_formatters/include/ecl/formatters/number.hpp
@@ -330,6 +330,7 @@ FormatNumber<Number>& FormatNumber<Number>::operator() (Number n, int w, ecl::In
     width_ = &tmp_width;
     alignment_ = &tmp_alignment;
     base_ = &tmp_base;
+    tmp_alignment = prm_alignment;
     base(b);
     width(w);
     value_ = n;
@@ -345,6 +346,7 @@ FormatNumber<Number>& FormatNumber<Number>::operator() (Number n, int w, ecl::Al
     width_ = &tmp_width;
     alignment_ = &tmp_alignment;
     base_ = &tmp_base;
+    tmp_alignment = a;
     base(b);
     width(w);
     align(a);
diff --git a/ecl_formatters/include/ecl/formatters/strings.hpp b/ecl_formatters/include/ecl/formatters/strings.hpp
index c4832c4..c7be0cf 100644
--- a/ecl_formatters/include/ecl/formatters/strings.hpp
+++ b/ecl_formatters/include/ecl/formatters/strings.hpp
@@ -49,7 +49,7 @@ class ecl_formatters_PUBLIC Format<std::string> {
          * @param w : width (default - no width constraints)
          * @param a : the textual alignment (default - no alignment constraints)
          **/
-        Format(int w = -1, Alignment a = NoAlign) : width_(w),alignment_(a) {}
+        Format(int w = -1, Alignment a = NoAlign) : width_(w),alignment_(a),tmp_width_(w),tmp_alignment_(a),temporary_(false),ready_to_format(false) {}
 		virtual ~Format() {}
 
         /******************************************
@@ -131,6 +131,9 @@ class ecl_formatters_PUBLIC Format<std::string> {
         *******************************************/
         int width_;
         Alignment alignment_;
+        int tmp_width_;
+        Alignment tmp_alignment_;
+        bool temporary_; // whether the temporary parameters apply to the next output
         bool ready_to_format;
         std::string s;
 
@@ -174,17 +177,18 @@ template <typename OutputStream>
 void Format<std::string>::format(OutputStream &ostream) const
 {
     int size = s.size();
+    int w = temporary_ ? tmp_width_ : width_;
 
-    prePad(width_ - (size),ostream); // previously had (size+2) here...why?
+    prePad(w - (size),ostream); // previously had (size+2) here...why?
     ostream << s;
-    postPad(width_ - (size),ostream);
+    postPad(w - (size),ostream);
 }
 
 template <typename OutputStream>
 void Format<std::string>::prePad(int n, OutputStream &ostream) const
 {
     if ( n <= 0 ) { return; }
-    switch ( alignment_ )
+    switch ( temporary_ ? tmp_alignment_ : alignment_ )
     {
         case ( NoAlign ) : { break; }
         case ( LeftAlign ) : { break; }
@@ -197,7 +201,7 @@ template <typename OutputStream>
 void Format<std::string>::postPad(int n, OutputStream &ostream) const
 {
     if ( n <= 0 ) { return; }
-    switch ( alignment_ )
+    switch ( temporary_ ? tmp_alignment_ : alignment_ )
     {
         case ( NoAlign ) : { break; }
         case ( LeftAlign ) : { pad(n,ostream); break; }
@@ -232,6 +236,7 @@ OutputStream& operator << (OutputStream &ostream, Format<std::string>& formatter
 
     if ( ready ) {
         formatter.format(ostream);
+        formatter.temporary_ = false;
         formatter.ready_to_format = false;
     }
 
diff --git a/ecl_formatters/src/lib/strings.cpp b/ecl_formatters/src/lib/strings.cpp
index fe0a763..7750dbf 100644
--- a/ecl_formatters/src/lib/strings.cpp
+++ b/ecl_formatters/src/lib/strings.cpp
@@ -38,6 +38,7 @@ Format<std::string>& Format<std::string>::operator () (int w, Alignment a)
 Format<std::string>& Format<std::string>::operator()(const std::string &input_string)
 {
     s =  input_string;
+    temporary_ = false;
     ready_to_format = true;
     return *this;
 }
@@ -47,15 +48,18 @@ Format<std::string>& Format<std::string>::operator()(const std::string &input_st
 *****************************************************************************/
 Format<std::string>& Format<std::string>::operator() (const std::string &input_string, int w)
 {
-    width(w);
+    tmp_width_ = w;
+    tmp_alignment_ = alignment_;
+    temporary_ = true;
     s = input_string;
     ready_to_format = true;
     return *this;
 }
 Format<std::string>& Format<std::string>::operator() (const std::string &input_string, int w, Alignment a)
 {
-    width(w);
-    align(a);
+    tmp_width_ = w;
+    tmp_alignment_ = a;
+    temporary_ = true;
     s = input_string;
     ready_to_format = true;
     return *this;
-- 
2.43.0


From 26c5907ca5050668f15f66fa60c492826ad17ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:06 +0000
Subject: [PATCH 035/129] fix: formatters: formatting an integer shares no
 buffer with other formatters

---
 ecl_formatters/include/ecl/formatters/number.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_formatters/include/ecl/formatters/number.hpp b/ecl_formatters/include/ecl/formatters/number.hpp
index 76f3d3d..dfc7b9c 100644
--- a/ecl_formatters/include/ecl/formatters/number.hpp
+++ b/ecl_formatters/include/ecl/formatters/number.hpp
@@ -256,7 +256,7 @@ template <typename Number>
   template <typename OutputStream>
 void FormatNumber<Number>::formatDec(OutputStream &ostream) const
 {
-    static ecl::Converter<char*> convert;
+    ecl::Converter<char*> convert;
     char *s = convert(value_);
     int size = strlen(s);
     prePad(*width_ - size,ostream);
-- 
2.43.0


From ec36e583c8c1f24046330ee21fb74186028a3dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:06 +0000
Subject: [PATCH 036/129] fix: formatters: copies of formatters have parameters
 of their own

---
 .../include/ecl/formatters/floats.hpp         | 45 ++++++++++++++++---
 .../include/ecl/formatters/number.hpp         | 39 ++++++++++++++--
 2 files changed, 75 insertions(+), 9 deletions(-)

diff --git a/ecl_formatters/include/ecl/formatters/floats.hpp b/ecl_formatters/include/ecl/formatters/floats.hpp
index 281971b..2b681e7 100644
--- a/ecl_formatters/include/ecl/formatters/floats.hpp
+++ b/ecl_formatters/include/ecl/formatters/floats.hpp
@@ -75,11 +75,20 @@ public:
 		prm_precision(p),
 		prm_alignment(a),
 		prm_base(b),
+		tmp_width(w), tmp_precision(p), tmp_alignment(a), tmp_base(b),
 		width_(&prm_width),
 		precision_(&prm_precision),
 		alignment_(&prm_alignment),
 		base_(&prm_base),
-		ready_to_format(false) {}
+		ready_to_format(false),
+		value_(0) {}
+
+	/**
+	 * @brief Copies take over the settings and value, but work on parameters of their own.
+	 * @param other : the formatter to copy.
+	 **/
+	FormatFloat(const FormatFloat<Number>& other) { *this = other; }
+	FormatFloat<Number>& operator=(const FormatFloat<Number>& other);
 
 	virtual ~FormatFloat() {}
 
@@ -212,10 +221,12 @@ protected:
 	/******************************************
 	** Parameters
 	*******************************************/
-	int prm_width,tmp_width;
-	int prm_precision,tmp_precision;
-	ecl::Alignment prm_alignment,tmp_alignment{};
-	ecl::FloatBase prm_base,tmp_base;
+	int prm_width, prm_precision;
+	ecl::Alignment prm_alignment;
+	ecl::FloatBase prm_base;
+	int tmp_width, tmp_precision;
+	ecl::Alignment tmp_alignment;
+	ecl::FloatBase tmp_base;
 	int *width_, *precision_;
 	ecl::Alignment *alignment_;
 	ecl::FloatBase *base_;
@@ -236,6 +247,30 @@ protected:
 	template <typename OutputStream> void formatSci(OutputStream &ostream) const;
 };
 
+/*****************************************************************************
+* FormatFloat Implementation  [copying]
+*****************************************************************************/
+template <typename Number>
+FormatFloat<Number>& FormatFloat<Number>::operator=(const FormatFloat<Number>& other)
+{
+    bool temporary = ( other.width_ != &(other.prm_width) );
+    prm_width = other.prm_width;
+    prm_precision = other.prm_precision;
+    prm_alignment = other.prm_alignment;
+    prm_base = other.prm_base;
+    tmp_width = other.tmp_width;
+    tmp_precision = other.tmp_precision;
+    tmp_alignment = other.tmp_alignment;
+    tmp_base = other.tmp_base;
+    width_ = temporary ? &tmp_width : &prm_width;
+    precision_ = temporary ? &tmp_precision : &prm_precision;
+    alignment_ = temporary ? &tmp_alignment : &prm_alignment;
+    base_ = temporary ? &tmp_base : &prm_base;
+    ready_to_format = other.ready_to_format;
+    value_ = other.value_;
+    return *this;
+}
+
 /*****************************************************************************
 * FormatFloat Implementation  [single parameter configuration]
 *****************************************************************************/
diff --git a/ecl_formatters/include/ecl/formatters/number.hpp b/ecl_formatters/include/ecl/formatters/number.hpp
index dfc7b9c..10355f4 100644
--- a/ecl_formatters/include/ecl/formatters/number.hpp
+++ b/ecl_formatters/include/ecl/formatters/number.hpp
@@ -65,7 +65,14 @@ class FormatNumber {
          * @param a : the textual alignment (default - no alignment constraints)
          * @param b : the base format for the integral representation (default - decimal)
          **/
-        FormatNumber(int w = -1, ecl::Alignment a = NoAlign, ecl::IntegralBase b = Dec) : prm_width(w),prm_alignment(a),prm_base(b),width_(&prm_width),alignment_(&prm_alignment),base_(&prm_base),ready_to_format(false) {}
+        FormatNumber(int w = -1, ecl::Alignment a = NoAlign, ecl::IntegralBase b = Dec) : prm_width(w),prm_alignment(a),prm_base(b),tmp_width(w),tmp_alignment(a),tmp_base(b),width_(&prm_width),alignment_(&prm_alignment),base_(&prm_base),ready_to_format(false),value_(0) {}
+
+        /**
+         * Copies take over the settings and value, but work on parameters of their own.
+         * @param other : the formatter to copy.
+         **/
+        FormatNumber(const FormatNumber<Number>& other) { *this = other; }
+        FormatNumber<Number>& operator=(const FormatNumber<Number>& other);
 
         virtual ~FormatNumber() {}
 
@@ -155,9 +162,12 @@ class FormatNumber {
         /******************************************
         ** Paramaters
         *******************************************/
-        int prm_width, tmp_width;
-        ecl::Alignment prm_alignment, tmp_alignment;
-        ecl::IntegralBase prm_base, tmp_base;
+        int prm_width;
+        ecl::Alignment prm_alignment;
+        ecl::IntegralBase prm_base;
+        int tmp_width;
+        ecl::Alignment tmp_alignment;
+        ecl::IntegralBase tmp_base;
         int *width_;
         ecl::Alignment *alignment_; IntegralBase *base_;
         bool ready_to_format;
@@ -179,6 +189,27 @@ class FormatNumber {
 
 }; // FormatNumber
 
+/*****************************************************************************
+* FormatNumber Implementation  [copying]
+*****************************************************************************/
+template <typename Number>
+FormatNumber<Number>& FormatNumber<Number>::operator=(const FormatNumber<Number>& other)
+{
+    bool temporary = ( other.width_ != &(other.prm_width) );
+    prm_width = other.prm_width;
+    prm_alignment = other.prm_alignment;
+    prm_base = other.prm_base;
+    tmp_width = other.tmp_width;
+    tmp_alignment = other.tmp_alignment;
+    tmp_base = other.tmp_base;
+    width_ = temporary ? &tmp_width : &prm_width;
+    alignment_ = temporary ? &tmp_alignment : &prm_alignment;
+    base_ = temporary ? &tmp_base : &prm_base;
+    ready_to_format = other.ready_to_format;
+    value_ = other.value_;
+    return *this;
+}
+
 /*****************************************************************************
 * FormatNumber Implementation  [configuration]
 *****************************************************************************/
-- 
2.43.0


From 3bf6f13fa9ca70819a6f010d05318b05c809687b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:16 +0000
Subject: [PATCH 037/129] fix: formatters: the settings of a constant float
 formatter can be read

---
 ecl_formatters/include/ecl/formatters/floats.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecl_formatters/include/ecl/formatters/floats.hpp b/ecl_formatters/include/ecl/formatters/floats.hpp
index 2b681e7..b319075 100644
--- a/ecl_formatters/include/ecl/formatters/floats.hpp
+++ b/ecl_formatters/include/ecl/formatters/floats.hpp
@@ -139,14 +139,14 @@ public:
 	 * @brief Returns the current precision setting.
 	 * @return int : the precision value.
 	 */
-	int precision() { return *precision_; }
+	int precision() const { return *precision_; }
 
 	/**
 	 * @brief Returns the current precision setting.
 	 *
 	 * @return int : the width value (-1 for no constraint).
 	 */
-	int width() { return *width_; }
+	int width() const { return *width_; }
 
 	/******************************************
 	 * Set Format Combinations
-- 
2.43.0


From bba233cbbcec649d6e52bc609e289454ddd76658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:16 +0000
Subject: [PATCH 038/129] fix: containers: copies of float container formatters
 use their own width

---
 .../include/ecl/containers/common/formatters.hpp    | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/ecl_containers/include/ecl/containers/common/formatters.hpp b/ecl_containers/include/ecl/containers/common/formatters.hpp
index 9f07252..5b8f3e1 100644
--- a/ecl_containers/include/ecl/containers/common/formatters.hpp
+++ b/ecl_containers/include/ecl/containers/common/formatters.hpp
@@ -81,7 +81,7 @@ class ECL_LOCAL FloatContainerFormatter {
             old_precision(-1),
             tmp_width(-1),
             prm_width(w),
-            width_ptr(&prm_width),
+            temporary_width(false),
             format(w,p,ecl::RightAlign,ecl::Fixed),
             container(NULL),
             ready_to_format(false)
@@ -154,7 +154,7 @@ class ECL_LOCAL FloatContainerFormatter {
             old_precision = format.precision();
             format.precision(p);
             tmp_width = w;
-            width_ptr = &tmp_width;
+            temporary_width = true;
             return *this;
         } //temporary
 
@@ -175,7 +175,7 @@ class ECL_LOCAL FloatContainerFormatter {
 
         int old_precision;
         int tmp_width, prm_width;
-        int* width_ptr;
+        bool temporary_width; // whether the temporary width applies to the next output
         Format< value_type > format;
         const Container *container;
         bool ready_to_format;
@@ -220,7 +220,8 @@ OutputStream& operator << (OutputStream& ostream, FloatContainerFormatter< Conta
             "C++ produces unspecified results when functors are used multiply "
             "in the same stream sequence, so this is not permitted here.") );
 
-    if ( *(formatter.width_ptr) == -1 ) {
+    const int width = formatter.temporary_width ? formatter.tmp_width : formatter.prm_width;
+    if ( width == -1 ) {
         /******************************************
         ** Compute min,max coefficients
         *******************************************/
@@ -240,7 +241,7 @@ OutputStream& operator << (OutputStream& ostream, FloatContainerFormatter< Conta
         **********************/
         formatter.format.width(formatter.digits(min_coeff,max_coeff));
     } else {
-        formatter.format.width(*(formatter.width_ptr));
+        formatter.format.width(width);
     }
 
     /*********************
@@ -261,7 +262,7 @@ OutputStream& operator << (OutputStream& ostream, FloatContainerFormatter< Conta
         formatter.old_precision = -1;
 
     }
-    formatter.width_ptr = &(formatter.prm_width);
+    formatter.temporary_width = false;
     formatter.ready_to_format = false;
 
     ostream.flush();
-- 
2.43.0


From 2dc457fb54654a388918d1fffcb2387c01d46504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:22 +0000
Subject: [PATCH 039/129] fix: containers: formatting an empty float container
 reads no element

---
 ecl_containers/include/ecl/containers/common/formatters.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_containers/include/ecl/containers/common/formatters.hpp b/ecl_containers/include/ecl/containers/common/formatters.hpp
index 5b8f3e1..daf6537 100644
--- a/ecl_containers/include/ecl/containers/common/formatters.hpp
+++ b/ecl_containers/include/ecl/containers/common/formatters.hpp
@@ -221,7 +221,7 @@ OutputStream& operator << (OutputStream& ostream, FloatContainerFormatter< Conta
             "in the same stream sequence, so this is not permitted here.") );
 
     const int width = formatter.temporary_width ? formatter.tmp_width : formatter.prm_width;
-    if ( width == -1 ) {
+    if ( ( width == -1 ) && ( formatter.container->size() > 0 ) ) {
         /******************************************
         ** Compute min,max coefficients
         *******************************************/
-- 
2.43.0


From 830bd8ab35be853d832de7fdcec49bf78ebff30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:39 +0000
Subject: [PATCH 040/129] fix: streams: floats of any size are written in full

---
 .../include/ecl/streams/text_streams/output_text_stream.hpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_streams/include/ecl/streams/text_streams/output_text_stream.hpp b/ecl_streams/include/ecl/streams/text_streams/output_text_stream.hpp
index 2b64faf..35439d0 100644
--- a/ecl_streams/include/ecl/streams/text_streams/output_text_stream.hpp
+++ b/ecl_streams/include/ecl/streams/text_streams/output_text_stream.hpp
@@ -91,7 +91,7 @@ class ECL_PUBLIC OutputTextStream<Device,true> : public virtual BaseTextStream<D
          * @endcode
          **/
         OutputTextStream() :
-        	toCharString(30) // character buffer size
+        	toCharString(350) // character buffer size, the largest double needs 317
 		{
             ecl_compile_time_concept_check(OutputCharDeviceConcept<Device>);
 		};
-- 
2.43.0


From fb938e5042fc23e10ce846d07a849facf9b112dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:39 +0000
Subject: [PATCH 041/129] fix: streams: integers up to their limits are read

---
 .../text_streams/input_text_stream.hpp        | 78 ++++++++++---------
 1 file changed, 42 insertions(+), 36 deletions(-)

diff --git a/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp b/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp
index 932c9e2..0043bbe 100644
--- a/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp
+++ b/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp
@@ -520,12 +520,12 @@ template <typename Number>
 bool InputTextStream<Device,true>::parseHexInteger(Number &i)
 {
     char c;
-    static int digits[25];
-    static const short ceiling = numeric_limits<short>::maximum/10;
+    Number number = 0;
+    bool out_of_range = false;
 
-    i = 0;
     int j = 0;
-    while ( j < 25 ) {
+    while ( true ) {
+        int digit;
     	long n = this->io_device.read(c);
     	if ( n < 0 ) {
         	this->error = ReadError;
@@ -534,29 +534,29 @@ bool InputTextStream<Device,true>::parseHexInteger(Number &i)
 			break; // nothing more to read.
 		}
         if ( ( c >= '0' ) && ( c <= '9') ) {
-            digits[j] = c - '0';
+            digit = c - '0';
         } else if ( ( c >= 'a' ) && ( c <= 'f') ) {
-            digits[j] = 10 + c - 'a';
+            digit = 10 + c - 'a';
         } else if ( ( c >= 'A' ) && ( c <= 'F') ) {
-            digits[j] = 10 + c - 'A';
+            digit = 10 + c - 'A';
         } else {
             break; // No more valid characters to read.
         }
-        ++j;
+        j = 1;
+        if ( number > ( std::numeric_limits<Number>::max() - digit ) / 16 ) {
+            out_of_range = true;
+        } else {
+            number = 16*number + digit;
+        }
     }
     if ( j == 0 ) {
     	this->error = ReadError;
     	return false;
 	}
 
-    short number = 0;
-    for ( int k = 0; k < j; ++k ) {
-        if ( number < ceiling ) {
-            number = 16*number + (digits[k]);
-        } else {
-        	this->error = OutOfRangeError;
-            return false;
-        }
+    if ( out_of_range ) {
+    	this->error = OutOfRangeError;
+        return false;
     }
     i = number;
     return true;
@@ -571,17 +571,17 @@ template <typename Device>
 template <typename Number>
 bool InputTextStream<Device,true>::getIntegerFromStream(Number &i) {
 
-    static char digits[25]; // 20 is the maximum needed on a 64 bit system for a long type
-    static const Number ceiling = ecl::numeric_limits<Number>::maximum/10;
     char c = ' ';
-    Number sign_multiplier = 1;
-    Number number;
+    bool negative = false;
+    bool out_of_range = false;
+    int j = 0; // counts the digits
+    Number number = 0;
 
 	if ( !skipLeadingWhiteSpace(c) ) { return false; }
 
     if ( c == '-' ) { // Negative
 		if ( std::numeric_limits<Number>::min() != 0 ) {
-            sign_multiplier = -1;
+            negative = true;
             if ( this->io_device.read(c) < 1 ) {
             	this->error = ReadError;
             	return false;
@@ -604,6 +604,7 @@ bool InputTextStream<Device,true>::getIntegerFromStream(Number &i) {
             return parseHexInteger(i);
         } else {
         	// its a regular integer, just continue
+        	j = 1;
         }
     } else if ( c == 'x' ) {
         return parseHexInteger(i);
@@ -612,10 +613,22 @@ bool InputTextStream<Device,true>::getIntegerFromStream(Number &i) {
     /*********************
     ** Parse reg. integer
     **********************/
-    int j = 0;
-    while ( ( c >= '0' ) && ( c <= '9') && ( j < 25 ) ) {
-        digits[j] = c;
-        j++;
+    while ( ( c >= '0' ) && ( c <= '9') ) {
+        const int digit = c - '0';
+        j = 1;
+        if ( negative ) {
+            if ( number < ( std::numeric_limits<Number>::min() + digit ) / 10 ) {
+                out_of_range = true;
+            } else {
+                number = 10*number - digit;
+            }
+        } else {
+            if ( number > ( std::numeric_limits<Number>::max() - digit ) / 10 ) {
+                out_of_range = true;
+            } else {
+                number = 10*number + digit;
+            }
+        }
         long n = this->io_device.read(c);
 		if ( n < 0 ) {
 			this->error = ReadError;
@@ -629,18 +642,11 @@ bool InputTextStream<Device,true>::getIntegerFromStream(Number &i) {
     	this->error = ConversionError;
     	return false;
 	}
-    number = 0;
-    for ( int k = 0; k < j; ++k )
-    {
-        if ( number < ceiling )
-        {
-            number = 10*number + (digits[k] - '0');
-        } else {
-        	this->error = OutOfRangeError;
-            return false;
-        }
+    if ( out_of_range ) {
+    	this->error = OutOfRangeError;
+        return false;
     }
-    i = sign_multiplier*number;
+    i = number;
 
     return true;
 }
-- 
2.43.0


From 0f92f0273e43acae0bc804f59d16db52070790c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:39 +0000
Subject: [PATCH 042/129] fix: streams: all digits of a float are read

---
 .../text_streams/input_text_stream.hpp        | 41 ++++++++++---------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp b/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp
index 0043bbe..9cbe12c 100644
--- a/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp
+++ b/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp
@@ -654,18 +654,16 @@ bool InputTextStream<Device,true>::getIntegerFromStream(Number &i) {
 template <typename Device>
 template <typename Number>
 bool InputTextStream<Device,true>::getFloatFromStream(Number &f) {
-    static const int bufferSize = 25;
-    static char digits[bufferSize]; // 20 is the maximum needed on a 64 bit system for a long type
     char c = ' ';
     int integral_length = 0;
     int decimal_length = 0;
-    Number sign_multiplier = 1;
-    Number number;
+    bool negative = false;
+    long double number;
 
 	if ( !skipLeadingWhiteSpace(c) ) { return false; }
 
     if ( c == '-' ) {
-        sign_multiplier = -1;
+        negative = true;
         if ( this->io_device.read(c) < 1 ) { this->error = ReadError; return false; }
     } else if ( c == '+' ) {
         if ( this->io_device.read(c) < 1 ) { this->error = ReadError; return false; }
@@ -674,42 +672,40 @@ bool InputTextStream<Device,true>::getFloatFromStream(Number &f) {
     /******************************************
     ** Integral part
     *******************************************/
-    while ( ( c >= '0' ) && ( c <= '9') && ( integral_length < bufferSize ) ) {
-        digits[integral_length] = c;
+    while ( ( c >= '0' ) && ( c <= '9') ) {
+        number = 10*number + (c - '0');
+        integral_length = 1;
         long n = this->io_device.read(c);
 		if ( n < 0 ) {
 			this->error = ReadError; return false;
 		} else if ( n == 0 ) {
 			break;
 		} else { // n > 1
-			integral_length++;
         }
     }
-    for ( int k = 0; k < integral_length; ++k ) {
-        number = 10*number + (digits[k] - '0');
-    }
 
     if ( c == '.' ) {
-        float frac_multiplier = 1;
+        long double divisor = 1;
+        long double fraction = 0;
         if ( this->io_device.read(c) < 1 ) { this->error = ReadError; return false; }
         /******************************************
         ** Decimal part
         *******************************************/
-        while ( ( c >= '0' ) && ( c <= '9') && ( decimal_length < bufferSize ) ) {
-            digits[decimal_length] = c;
+        while ( ( c >= '0' ) && ( c <= '9') ) {
+            if ( decimal_length < 1000 ) { // further digits are too small to matter
+                fraction = 10*fraction + (c - '0');
+                divisor *= 10;
+                decimal_length++;
+            }
             long n = this->io_device.read(c);
     		if ( n < 0 ) {
     			this->error = ReadError; return false;
     		} else if ( n == 0 ) {
     			break;
     		} else { // n > 1
-                decimal_length++;
             }
         }
-        for ( int k = 0; k < decimal_length; ++k ) {
-            frac_multiplier *= 0.1f;
-            number = number + frac_multiplier*(digits[k] - '0');
-        }
+        number += fraction/divisor;
     }
 
     if ( (integral_length+decimal_length) == 0 ) {
@@ -717,7 +713,12 @@ bool InputTextStream<Device,true>::getFloatFromStream(Number &f) {
     	return false;
 	}
 
-    f = sign_multiplier*number;
+    if ( number > std::numeric_limits<Number>::max() ) {
+    	this->error = OutOfRangeError;
+    	return false;
+	}
+
+    f = negative ? -number : number;
 
     return true;
 }
-- 
2.43.0


From 2d4af9e3ef607ec7616b6d815ccd779f47a439b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:39 +0000
Subject: [PATCH 043/129] fix: streams: logs opened by hand write headers and
 time stamps

---
 ecl_streams/include/ecl/streams/log_stream.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_streams/include/ecl/streams/log_stream.hpp b/ecl_streams/include/ecl/streams/log_stream.hpp
index b35a29b..e678425 100644
--- a/ecl_streams/include/ecl/streams/log_stream.hpp
+++ b/ecl_streams/include/ecl/streams/log_stream.hpp
@@ -115,7 +115,7 @@ public:
 	 * This must open the underlying shared file device manually
 	 * via device().open() as you would do if using a TextStream.
 	 */
-	LogStream() {};
+	LogStream() : write_header(true), write_stamp(true) {};
 	/**
 	 * @brief Convenience constructor for logstreams.
 	 *
-- 
2.43.0


From 0aa13ae6e5f2e1e925add385e850765b19e35b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:39 +0000
Subject: [PATCH 044/129] fix: streams: a mode enabled again has the header
 given last

---
 ecl_streams/src/lib/log_stream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_streams/src/lib/log_stream.cpp b/ecl_streams/src/lib/log_stream.cpp
index 4fd972a..3b06243 100644
--- a/ecl_streams/src/lib/log_stream.cpp
+++ b/ecl_streams/src/lib/log_stream.cpp
@@ -34,7 +34,7 @@ void LogStream::disableHeader() { write_header = false; }
 void LogStream::enableTimeStamp() { write_stamp = true; }
 void LogStream::disableTimeStamp() { write_stamp = false; }
 
-void LogStream::enableMode(int mode, std::string header) { modes.insert( std::make_pair(mode,header) ); }
+void LogStream::enableMode(int mode, std::string header) { modes[mode] = header; }
 void LogStream::disableMode(int mode) { modes.erase(mode); }
 
 bool LogStream::isEnabled() {
-- 
2.43.0


From bd284ae940f10ded4aa9abba97ad2165fa24d1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:08 +0000
Subject: [PATCH 045/129] fix: streams: the largest floats are read

---
 .../include/ecl/streams/text_streams/input_text_stream.hpp   | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp b/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp
index 9cbe12c..d4f83d4 100644
--- a/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp
+++ b/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp
@@ -713,12 +713,13 @@ bool InputTextStream<Device,true>::getFloatFromStream(Number &f) {
     	return false;
 	}
 
-    if ( number > std::numeric_limits<Number>::max() ) {
+    const Number value = static_cast<Number>(number);
+    if ( value > std::numeric_limits<Number>::max() ) {
     	this->error = OutOfRangeError;
     	return false;
 	}
 
-    f = negative ? -number : number;
+    f = negative ? -value : value;
 
     return true;
 }
-- 
2.43.0


From 3b63d14aae81adb8ae3668392c064496cf4d7594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:04 +0000
Subject: [PATCH 046/129] fix: streams: a read error within a word is reported

---
 .../include/ecl/streams/text_streams/input_text_stream.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp b/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp
index d4f83d4..9aac1b9 100644
--- a/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp
+++ b/ecl_streams/include/ecl/streams/text_streams/input_text_stream.hpp
@@ -204,9 +204,12 @@ InputTextStream<Device>& InputTextStream<Device,true>::operator >> ( std::string
 	    s.clear();
 	    do {
 	        s.push_back(c);
-	        if( this->io_device.read(c) < 1 ) {
+	        long n = this->io_device.read(c);
+	        if( n < 0 ) {
 	        	this->error = ReadError;
-	        	break;
+	        	return *this;
+	        } else if( n == 0 ) {
+	        	break; // end of the device is the end of the word.
 			}
 	    } while ( ( c != ' ' ) && ( c != '\n' ) );
 	    this->error = NoError;
-- 
2.43.0


From 60acef0f2cdea776b9dbfc6274c57293420be48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:55 +0000
Subject: [PATCH 047/129] fix: devices: opening a new file starts an empty file

---
 ecl_devices/src/lib/ofile_pos.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_devices/src/lib/ofile_pos.cpp b/ecl_devices/src/lib/ofile_pos.cpp
index c1e2265..c207bed 100644
--- a/ecl_devices/src/lib/ofile_pos.cpp
+++ b/ecl_devices/src/lib/ofile_pos.cpp
@@ -66,7 +66,7 @@ bool OFile::open(const std::string &file_name, const WriteMode &write_mode) {
 	name = file_name;
     switch(write_mode) {
         case(New) : {
-        	file_descriptor = ::open(name.c_str(), O_WRONLY|O_CREAT, S_IWUSR|S_IRUSR|S_IRGRP|S_IROTH);
+        	file_descriptor = ::open(name.c_str(), O_WRONLY|O_CREAT|O_TRUNC, S_IWUSR|S_IRUSR|S_IRGRP|S_IROTH);
             if ( file_descriptor == -1 ) {
                 ecl_throw(devices::open_exception(LOC,file_name));
                 error_handler = devices::open_error();
-- 
2.43.0


From 61be0cf7414b283856cf961e9907ee672270d2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:55 +0000
Subject: [PATCH 048/129] fix: devices: writing nothing to a file is not an
 error

---
 ecl_devices/include/ecl/devices/ofile_pos.hpp | 4 ++++
 ecl_devices/src/lib/ofile_pos.cpp             | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/ecl_devices/include/ecl/devices/ofile_pos.hpp b/ecl_devices/include/ecl/devices/ofile_pos.hpp
index d24211e..bf0fa7b 100644
--- a/ecl_devices/include/ecl/devices/ofile_pos.hpp
+++ b/ecl_devices/include/ecl/devices/ofile_pos.hpp
@@ -313,6 +313,10 @@ long OFile::write(const ByteArray&byte_array) {
     	error_handler = OpenError;
     	return -1;
     }
+    if ( byte_array.size() == 0 ) {
+    	error_handler = NoError;
+    	return 0;
+    }
     size_t written = fwrite(&byte_array[0],byte_array.size(),1,file);
     if ( written == 0) {
     	ecl_debug_throw(ecl::StandardException(LOC, WriteError, std::string("Could not write to ") + name + std::string(".")));
diff --git a/ecl_devices/src/lib/ofile_pos.cpp b/ecl_devices/src/lib/ofile_pos.cpp
index c207bed..5e7d930 100644
--- a/ecl_devices/src/lib/ofile_pos.cpp
+++ b/ecl_devices/src/lib/ofile_pos.cpp
@@ -138,6 +138,10 @@ long OFile::write(const char* s, unsigned long n)
 		error_handler = OpenError;
     	return -1;
 	}
+	if ( n == 0 ) {
+		error_handler = NoError;
+		return 0;
+	}
 	size_t written = fwrite(s,n,1,file);
     if ( written <= 0 ) {
     	ecl_debug_throw(StandardException(LOC, WriteError, std::string("Could not write to ") + name + std::string(".")));
-- 
2.43.0


From e63bad850c4ac318b62cbcdcc15e89ef1d0b007c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:55 +0000
Subject: [PATCH 049/129] fix: devices: flushing a file that is not open is
 refused

---
 ecl_devices/src/lib/ofile_pos.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ecl_devices/src/lib/ofile_pos.cpp b/ecl_devices/src/lib/ofile_pos.cpp
index 5e7d930..a4dd661 100644
--- a/ecl_devices/src/lib/ofile_pos.cpp
+++ b/ecl_devices/src/lib/ofile_pos.cpp
@@ -157,6 +157,11 @@ bool OFile::flush() {
 	// This flushes userland buffers to the kernel buffers...not sure why,
 	// but you can still read the file in real time, so its good enough and
 	// thus better than a more expensive fsync here.
+	if ( !open() ) {
+		ecl_debug_throw(StandardException(LOC, OpenError, std::string("File ") + name + std::string(" is not open for writing.")));
+		error_handler = OpenError;
+		return false;
+	}
 	int result = fflush(file);
 	if ( result != 0 ) {
 		ecl_debug_throw ( StandardException(LOC, UnknownError, std::string("Could not fflush ") + name + std::string(".")));
-- 
2.43.0


From a89cd9fb45c4afac123115628861652aa7960aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:55 +0000
Subject: [PATCH 050/129] fix: devices: a file that fails to close is not
 closed twice

---
 ecl_devices/src/lib/ofile_pos.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ecl_devices/src/lib/ofile_pos.cpp b/ecl_devices/src/lib/ofile_pos.cpp
index a4dd661..373b7e2 100644
--- a/ecl_devices/src/lib/ofile_pos.cpp
+++ b/ecl_devices/src/lib/ofile_pos.cpp
@@ -99,12 +99,13 @@ bool OFile::open(const std::string &file_name, const WriteMode &write_mode) {
 bool OFile::close() {
 	if ( open() ) {
 		// This flushes and closes the file descriptor.
-		if ( fclose(file) != 0 ) {
+		int result = fclose(file);
+		file = NULL; // gone, whether or not everything could be written
+		if ( result != 0 ) {
 			ecl_throw(devices::close_exception(LOC,name));
 			error_handler = devices::close_error();
 			return false;
 		}
-		file = NULL;
 	}
 	error_handler = NoError;
 	return true;
-- 
2.43.0


From 2d83cac609f6329de434aea53ec57e9862012931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:55 +0000
Subject: [PATCH 051/129] fix: devices: opening a file closes the one opened
 before

---
 ecl_devices/src/lib/ofile_pos.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ecl_devices/src/lib/ofile_pos.cpp b/ecl_devices/src/lib/ofile_pos.cpp
index 373b7e2..8c6cf02 100644
--- a/ecl_devices/src/lib/ofile_pos.cpp
+++ b/ecl_devices/src/lib/ofile_pos.cpp
@@ -63,6 +63,9 @@ OFile::~OFile() {
 *****************************************************************************/
 
 bool OFile::open(const std::string &file_name, const WriteMode &write_mode) {
+	if ( open() && !close() ) {
+		return false;
+	}
 	name = file_name;
     switch(write_mode) {
         case(New) : {
-- 
2.43.0


From 85d3f728492766a3bf9a534b28cc31a4f4048992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:55 +0000
Subject: [PATCH 052/129] fix: devices: a shared file that cannot be opened
 leaves the others usable

---
 ecl_devices/src/lib/shared_file.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ecl_devices/src/lib/shared_file.cpp b/ecl_devices/src/lib/shared_file.cpp
index a5c2e19..565f18a 100644
--- a/ecl_devices/src/lib/shared_file.cpp
+++ b/ecl_devices/src/lib/shared_file.cpp
@@ -90,6 +90,7 @@ SharedFileCommon* SharedFileManager::RegisterSharedFile(const std::string& name,
     		opened_files.insert(std::pair<string,SharedFileCommon*>(name,shared_instance));
     	} ecl_catch ( StandardException &e ) {
     		shared_instance = NULL;
+    		mutex.unlock();
     		ecl_throw(StandardException(LOC,e));
     	}
     }
@@ -107,6 +108,7 @@ bool SharedFileManager::DeRegisterSharedFile(const std::string& name) {
 	std::map<std::string,SharedFileCommon*>::iterator iter = opened_files.find(name);
 
 	if ( iter == opened_files.end() ) {
+		mutex.unlock();
 		ecl_throw(StandardException(LOC,CloseError,"The specified shared object file could not be closed - was not found."));
 		return false;
 	}
-- 
2.43.0


From fed05dee735760cd233f401ef8c182eacf10e89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:55 +0000
Subject: [PATCH 053/129] fix: devices: shared file handles keep their own
 state and refuse use when not open

---
 .../include/ecl/devices/shared_file.hpp       |  9 ++--
 ecl_devices/src/lib/shared_file.cpp           | 50 ++++++++++++-------
 2 files changed, 36 insertions(+), 23 deletions(-)

diff --git a/ecl_devices/include/ecl/devices/shared_file.hpp b/ecl_devices/include/ecl/devices/shared_file.hpp
index 179c9a9..faea1ab 100644
--- a/ecl_devices/include/ecl/devices/shared_file.hpp
+++ b/ecl_devices/include/ecl/devices/shared_file.hpp
@@ -127,7 +127,7 @@ public:
 	 * constructors. Use this with the open() command to do so. You can
 	 * check for open status via the open accessor.
 	 */
-	SharedFile() {};
+	SharedFile() : shared_instance(NULL), error_handler(NoError) {};
 	/**
 	 * @brief Either opens a file for writing or a link to an existing shared instance.
 	 *
@@ -175,7 +175,7 @@ public:
 	 *
 	 * @return unsigned int : the number of shared instances.
 	 */
-	unsigned int count() { return shared_instance->count; }
+	unsigned int count() { return ( shared_instance != NULL ) ? shared_instance->count : 0; }
 
 	/*********************
 	** OutputDevice Methods
@@ -185,7 +185,7 @@ public:
 	 *
 	 * @return bool : true if open, false otherwise.
 	 */
-	bool open() { return shared_instance->file.open(); }
+	bool open() { return ( shared_instance != NULL ) ? shared_instance->file.open() : false; }
 	/**
 	 * @brief Write a character to the buffer.
 	 *
@@ -227,11 +227,12 @@ public:
 	 **/
 	bool flush();
 
-	const Error& error() const { return shared_instance->error_handler; }
+	const Error& error() const { return error_handler; }
 
 private:
 	devices::SharedFileCommon* shared_instance;
 	devices::CharBuffer buffer;
+	Error error_handler;
 };
 
 /*****************************************************************************
diff --git a/ecl_devices/src/lib/shared_file.cpp b/ecl_devices/src/lib/shared_file.cpp
index 565f18a..dc3ac3c 100644
--- a/ecl_devices/src/lib/shared_file.cpp
+++ b/ecl_devices/src/lib/shared_file.cpp
@@ -135,7 +135,8 @@ using std::string;
 *****************************************************************************/
 
 SharedFile::SharedFile(const std::string &name, WriteMode mode) :
-	shared_instance(NULL)
+	shared_instance(NULL),
+	error_handler(NoError)
 {
 	ecl_try {
 		open(name,mode);
@@ -146,10 +147,8 @@ SharedFile::SharedFile(const std::string &name, WriteMode mode) :
 
 SharedFile::~SharedFile() {
 	ecl_try {
-	        if (shared_instance->error_handler.flag() == NoError) {
+	        if (shared_instance != NULL) {
 	            devices::SharedFileManager::DeRegisterSharedFile( shared_instance->file.filename() );
-	        } else {
-	            delete shared_instance;
 	        }
 	} ecl_catch( StandardException &e ) {
 		// Never throw from a destructor!
@@ -162,21 +161,25 @@ bool SharedFile::open(const std::string &name, WriteMode mode) {
 	ecl_try {
 		shared_instance = devices::SharedFileManager::RegisterSharedFile(name,mode);
 		if ( shared_instance == NULL ) {
-                        shared_instance = new devices::SharedFileCommon();
-                        shared_instance->error_handler = OpenError;
+			error_handler = OpenError;
 			return false;
 		} else {
-			shared_instance->error_handler = NoError;
+			error_handler = NoError;
 			return true;
 		}
 	} ecl_catch ( StandardException &e ) {
-	        shared_instance = new devices::SharedFileCommon();
-		shared_instance->error_handler = OpenError;
+		shared_instance = NULL;
+		error_handler = OpenError;
 		ecl_throw(StandardException(LOC,e));
 	}
 }
 
 long SharedFile::write(const char &c) {
+	if ( !open() ) {
+		ecl_debug_throw(StandardException(LOC, OpenError, "The shared file is not open for writing."));
+		error_handler = OpenError;
+		return -1;
+	}
 	long n = buffer.append(c);
 	if ( buffer.full() ) {
 		if ( !flush() ) {
@@ -187,7 +190,12 @@ long SharedFile::write(const char &c) {
 }
 
 long SharedFile::write(const char* s, unsigned long n) {
-	unsigned int no_written = 0;
+	if ( !open() ) {
+		ecl_debug_throw(StandardException(LOC, OpenError, "The shared file is not open for writing."));
+		error_handler = OpenError;
+		return -1;
+	}
+	unsigned long no_written = 0;
 	while ( no_written < n ) {
 		no_written += buffer.append(s+no_written,n-no_written);
 		if ( buffer.full() ) {
@@ -200,21 +208,25 @@ long SharedFile::write(const char* s, unsigned long n) {
 }
 
 bool SharedFile::flush() {
-	long written;
+	if ( !open() ) {
+		ecl_debug_throw(StandardException(LOC, OpenError, "The shared file is not open for writing."));
+		error_handler = OpenError;
+		return false;
+	}
+	long written = 0;
+	shared_instance->mutex.lock();
 	ecl_debug_try {
 		written = shared_instance->file.write(buffer.c_ptr(), buffer.size() );
 	} ecl_debug_catch(const StandardException &e) {
-		shared_instance->error_handler = shared_instance->file.error();
+		error_handler = shared_instance->file.error();
+		shared_instance->mutex.unlock();
 		ecl_debug_throw(StandardException(LOC,e));
 	}
-	buffer.clear();
 	// fallback for no exceptions
-	shared_instance->error_handler = shared_instance->file.error();
-	if ( written > 0 ) {
-		return true;
-	} else {
-		return false;
-	}
+	error_handler = shared_instance->file.error();
+	shared_instance->mutex.unlock();
+	buffer.clear();
+	return ( written >= 0 );
 }
 
 
-- 
2.43.0


From 11f18158fec70a3c496bf6226b81f6150c268738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:55 +0000
Subject: [PATCH 054/129] fix: devices: a shared file handle writes what it has
 buffered before it goes

---
 ecl_devices/src/lib/shared_file.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ecl_devices/src/lib/shared_file.cpp b/ecl_devices/src/lib/shared_file.cpp
index dc3ac3c..2bae4df 100644
--- a/ecl_devices/src/lib/shared_file.cpp
+++ b/ecl_devices/src/lib/shared_file.cpp
@@ -148,6 +148,11 @@ SharedFile::SharedFile(const std::string &name, WriteMode mode) :
 SharedFile::~SharedFile() {
 	ecl_try {
 	        if (shared_instance != NULL) {
+	            ecl_debug_try {
+	                if ( buffer.size() > 0 ) { flush(); }
+	            } ecl_debug_catch( const StandardException &e ) {
+	                // could not be written, let go of the file all the same.
+	            }
 	            devices::SharedFileManager::DeRegisterSharedFile( shared_instance->file.filename() );
 	        }
 	} ecl_catch( StandardException &e ) {
-- 
2.43.0


From d7ba811e007df6522596d690d4f36e2778cc9b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:30 +0000
Subject: [PATCH 055/129] fix: devices: opening a shared file lets go of the
 one opened before

---
 ecl_devices/src/lib/shared_file.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ecl_devices/src/lib/shared_file.cpp b/ecl_devices/src/lib/shared_file.cpp
index 2bae4df..2ad826a 100644
--- a/ecl_devices/src/lib/shared_file.cpp
+++ b/ecl_devices/src/lib/shared_file.cpp
@@ -163,6 +163,11 @@ SharedFile::~SharedFile() {
 }
 
 bool SharedFile::open(const std::string &name, WriteMode mode) {
+	if ( shared_instance != NULL ) { // let go of the file opened before
+		if ( buffer.size() > 0 ) { flush(); }
+		devices::SharedFileManager::DeRegisterSharedFile( shared_instance->file.filename() );
+		shared_instance = NULL;
+	}
 	ecl_try {
 		shared_instance = devices::SharedFileManager::RegisterSharedFile(name,mode);
 		if ( shared_instance == NULL ) {
-- 
2.43.0


From 8c797303ebb2e30d70e47010d130d0ae30beb836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:47 +0000
Subject: [PATCH 056/129] fix: mutexes count their locks without data races,
 and only those that succeed

---
 ecl_threads/include/ecl/threads/mutex_pos.hpp | 3 ++-
 ecl_threads/src/lib/mutex_pos.cpp             | 6 ++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/ecl_threads/include/ecl/threads/mutex_pos.hpp b/ecl_threads/include/ecl/threads/mutex_pos.hpp
index 99335dc..c626704 100644
--- a/ecl_threads/include/ecl/threads/mutex_pos.hpp
+++ b/ecl_threads/include/ecl/threads/mutex_pos.hpp
@@ -27,6 +27,7 @@
 #include <cstring> // strerror function
 #include <string>
 #include <pthread.h>
+#include <atomic>
 #include <sstream>
 #include <ecl/config/macros.hpp>
 #include <ecl/exceptions/macros.hpp>
@@ -155,7 +156,7 @@ public:
 
 private:
 	RawMutex mutex;
-	unsigned int number_locks;
+	std::atomic<unsigned int> number_locks; // read and written by threads that do not hold the mutex too
 
 };
 
diff --git a/ecl_threads/src/lib/mutex_pos.cpp b/ecl_threads/src/lib/mutex_pos.cpp
index 6f81844..7cb4cd3 100644
--- a/ecl_threads/src/lib/mutex_pos.cpp
+++ b/ecl_threads/src/lib/mutex_pos.cpp
@@ -70,6 +70,9 @@ void Mutex::lock()
 {
   ++number_locks;
   int result = pthread_mutex_lock(&mutex);
+  if (result != 0) {
+    --number_locks;
+  }
   ecl_assert_throw(result == 0, threads::throwMutexLockException(LOC,result));
   (void) result; // for unused variable warnings, in case the assert wasn't triggered
 }
@@ -113,6 +116,9 @@ void Mutex::unlock()
 {
   --number_locks;
   int result = pthread_mutex_unlock(&mutex);
+  if (result != 0) {
+    ++number_locks;
+  }
   ecl_assert_throw(result == 0, threads::throwMutexUnLockException(LOC,result));
   (void) result; // for unused variable warnings, in case the assert wasn't triggered
 }
-- 
2.43.0


From e0257df972dc09dfc4d31fd6dd593ca9e6fb9955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:47 +0000
Subject: [PATCH 057/129] fix: trying a mutex for some time waits that long

---
 ecl_threads/src/lib/mutex_pos.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/ecl_threads/src/lib/mutex_pos.cpp b/ecl_threads/src/lib/mutex_pos.cpp
index 7cb4cd3..d8b8409 100644
--- a/ecl_threads/src/lib/mutex_pos.cpp
+++ b/ecl_threads/src/lib/mutex_pos.cpp
@@ -80,14 +80,26 @@ void Mutex::lock()
 bool Mutex::trylock(Duration &duration)
 {
   #if defined(_POSIX_TIMEOUTS) && (_POSIX_TIMEOUTS - 200112L) >= 0L
+    // the timeout is a point in time, not a duration.
     timespec timeout;
-    timeout.tv_sec = duration.sec();
-    timeout.tv_nsec = duration.nsec();
+    clock_gettime(CLOCK_REALTIME, &timeout);
+    timeout.tv_sec += duration.sec();
+    timeout.tv_nsec += duration.nsec();
+    if (timeout.tv_nsec >= 1000000000L) {
+      timeout.tv_nsec -= 1000000000L;
+      ++timeout.tv_sec;
+    } else if (timeout.tv_nsec < 0) {
+      timeout.tv_nsec += 1000000000L;
+      --timeout.tv_sec;
+    }
     int result = pthread_mutex_timedlock(&mutex, &timeout);
     if (result == ETIMEDOUT) {
       return false;
     }
     ecl_assert_throw(result == 0, threads::throwMutexTimedLockException(LOC,result));
+    if (result != 0) {
+      return false;
+    }
     ++number_locks;
   #else
     (void) duration;
-- 
2.43.0


From 35be72796659658c5dc25f393930e7902c65d1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:47 +0000
Subject: [PATCH 058/129] fix: threads own their task, know when it has
 finished and are joined once

---
 .../include/ecl/threads/thread_pos.hpp        | 47 ++++++++++---------
 ecl_threads/src/lib/thread_pos.cpp            | 44 +++++++++--------
 2 files changed, 48 insertions(+), 43 deletions(-)

diff --git a/ecl_threads/include/ecl/threads/thread_pos.hpp b/ecl_threads/include/ecl/threads/thread_pos.hpp
index fe01f7b..b89812e 100644
--- a/ecl_threads/include/ecl/threads/thread_pos.hpp
+++ b/ecl_threads/include/ecl/threads/thread_pos.hpp
@@ -23,6 +23,8 @@
 ** Includes
 *****************************************************************************/
 
+#include <atomic>
+#include <memory>
 #include <pthread.h>
 #include "thread_exceptions_pos.hpp"
 #include <ecl/config/macros.hpp>
@@ -50,10 +52,12 @@ namespace threads {
  */
 class ECL_LOCAL ThreadTaskBase {
 public:
-	virtual ~ThreadTaskBase() {};
+	virtual ~ThreadTaskBase() { *running = false; };
+
+	std::shared_ptr< std::atomic<bool> > running; /**< Shared with the thread object, true for the lifetime of the task. **/
 
 protected:
-	ThreadTaskBase(const Priority& priority) : priority_level(priority) {}; /**< This constructor is only enabled for child ThreadTask classes. **/
+	ThreadTaskBase(const Priority& priority) : running(new std::atomic<bool>(true)), priority_level(priority) {}; /**< This constructor is only enabled for child ThreadTask classes. **/
 	ecl::Priority priority_level;
 };
 /**
@@ -92,12 +96,11 @@ public:
 	 * @return void* : a posix thread requirement, the return value (unused).
 	 */
 	static void* EntryPoint(void *ptr_this) {
-	    ThreadTask< F, false > *ptr = static_cast< ThreadTask< F, false > * >(ptr_this);
+	    // owns the task, also when the thread is cancelled
+	    std::unique_ptr< ThreadTask< F, false > > ptr(static_cast< ThreadTask< F, false > * >(ptr_this));
 	    ecl::set_priority(ptr->priority_level);
 	    (ptr->function)();
-	    delete ptr;
-	    ptr_this = NULL;
-	    return ptr_this;
+	    return NULL;
 	}
 
 private:
@@ -140,12 +143,11 @@ public:
 	 * @return void* : a posix thread requirement, the return value (unused).
 	 */
 	static void* EntryPoint(void *ptr_this) {
-	    ThreadTask< F, true > *ptr = static_cast< ThreadTask< F, true > * >(ptr_this);
+	    // owns the task, also when the thread is cancelled
+	    std::unique_ptr< ThreadTask< F, true > > ptr(static_cast< ThreadTask< F, true > * >(ptr_this));
 	    ecl::set_priority(ptr->priority_level);
 	    (ptr->function)();
-	    delete ptr;
-	    ptr_this = NULL;
-	    return ptr_this;
+	    return NULL;
 	}
 
 private:
@@ -240,7 +242,6 @@ public:
 	 * Use one of the start() functions to kick the thread off.
 	 */
 	Thread() :
-		thread_task(NULL),
 		has_started(false),
 		join_requested(false)
 	{
@@ -381,7 +382,7 @@ public:
 	 *
 	 * @return bool : true if the thread task is still running, false otherwise.
 	 */
-	bool isRunning() const { if ( thread_task == NULL ) { return false; } else { return true; } }
+	bool isRunning() const { return running && *running; }
 
 	/**
 	 * @brief Queue a cancel request for this thread to abort.
@@ -417,7 +418,7 @@ private:
 	pthread_t thread_handle;
     pthread_attr_t attrs;
     sched_param schedule_parameters;
-    threads::ThreadTaskBase *thread_task;
+    std::shared_ptr< std::atomic<bool> > running;
     bool has_started;
     bool join_requested;
 
@@ -434,7 +435,6 @@ private:
 
 template <typename C>
 Thread::Thread(void (C::*function)(), C &c, const Priority &priority, const long &stack_size) :
-	thread_task(NULL),
 	has_started(false),
 	join_requested(false)
 {
@@ -444,7 +444,6 @@ Thread::Thread(void (C::*function)(), C &c, const Priority &priority, const long
 
 template <typename F>
 Thread::Thread(const F &function, const Priority &priority, const long &stack_size) :
-	thread_task(NULL),
 	has_started(false),
 	join_requested(false)
 {
@@ -457,16 +456,17 @@ Error Thread::start(void (C::*function)(), C &c, const Priority &priority, const
 	if ( has_started ) {
 		ecl_debug_throw(StandardException(LOC,BusyError,"The thread has already been started."));
 		return Error(BusyError); // if in release mode, gracefully fall back to return values.
-	} else {
-		has_started = true;
 	}
 	initialise(stack_size);
-	thread_task = new threads::ThreadTask< BoundNullaryMemberFunction<C,void> >(generateFunctionObject( function, c ), priority);
+	has_started = true;
+	threads::ThreadTask< BoundNullaryMemberFunction<C,void> > *thread_task = new threads::ThreadTask< BoundNullaryMemberFunction<C,void> >(generateFunctionObject( function, c ), priority);
+	running = thread_task->running;
     int result = pthread_create(&(this->thread_handle), &(this->attrs), threads::ThreadTask< BoundNullaryMemberFunction<C,void> >::EntryPoint, thread_task);
 	pthread_attr_destroy(&attrs);
     if ( result != 0 ) {
     	delete thread_task;
-    	thread_task = NULL;
+    	running.reset();
+    	has_started = false;
         ecl_debug_throw(threads::throwPthreadCreateException(LOC,result));
 		return threads::handlePthreadCreateError(result); // if in release mode, gracefully fall back to return values.
     }
@@ -479,16 +479,17 @@ Error Thread::start(const F &function, const Priority &priority, const long &sta
 	if ( has_started ) {
 		ecl_debug_throw(StandardException(LOC,BusyError,"The thread has already been started."));
 		return Error(BusyError); // if in release mode, gracefully fall back to return values.
-	} else {
-		has_started = true;
 	}
 	initialise(stack_size);
-	thread_task = new threads::ThreadTask<F, is_reference_wrapper<F>::value >(function, priority);
+	has_started = true;
+	threads::ThreadTask<F, is_reference_wrapper<F>::value > *thread_task = new threads::ThreadTask<F, is_reference_wrapper<F>::value >(function, priority);
+	running = thread_task->running;
     int result = pthread_create(&(this->thread_handle), &(this->attrs), threads::ThreadTask<F, is_reference_wrapper<F>::value>::EntryPoint, thread_task);
 	pthread_attr_destroy(&attrs);
     if ( result != 0 ) {
     	delete thread_task;
-    	thread_task = NULL;
+    	running.reset();
+    	has_started = false;
     	ecl_debug_throw(threads::throwPthreadCreateException(LOC,result));
 		return threads::handlePthreadCreateError(result); // if in release mode, gracefully fall back to return values.
     }
diff --git a/ecl_threads/src/lib/thread_pos.cpp b/ecl_threads/src/lib/thread_pos.cpp
index 8decbc2..06c984a 100644
--- a/ecl_threads/src/lib/thread_pos.cpp
+++ b/ecl_threads/src/lib/thread_pos.cpp
@@ -31,7 +31,6 @@ namespace ecl {
 *****************************************************************************/
 
 Thread::Thread(VoidFunction function, const Priority &priority, const long &stack_size) :
-  thread_task(NULL),
   has_started(false),
   join_requested(false)
 {
@@ -43,17 +42,18 @@ Error Thread::start(VoidFunction function, const Priority &priority, const long
   if ( has_started ) {
     ecl_debug_throw(StandardException(LOC,BusyError,"The thread has already been started."));
     return Error(BusyError); // if in release mode, gracefully fall back to return values.
-  } else {
-    has_started = true;
   }
   initialise(stack_size);
+  has_started = true;
   NullaryFreeFunction<void> nullary_function_object = generateFunctionObject(function);
-  thread_task = new threads::ThreadTask< NullaryFreeFunction<void> >(nullary_function_object, priority);
+  threads::ThreadTask< NullaryFreeFunction<void> > *thread_task = new threads::ThreadTask< NullaryFreeFunction<void> >(nullary_function_object, priority);
+  running = thread_task->running;
     int result = pthread_create(&(this->thread_handle), &(this->attrs), threads::ThreadTask< NullaryFreeFunction<void> >::EntryPoint, thread_task);
   pthread_attr_destroy(&attrs);
     if ( result != 0 ) {
       delete thread_task;
-      thread_task = NULL;
+      running.reset();
+      has_started = false;
       ecl_debug_throw(threads::throwPthreadCreateException(LOC,result));
     return threads::handlePthreadCreateError(result); // if in release mode, gracefully fall back to return values.
     }
@@ -78,26 +78,30 @@ Thread::~Thread() {
   }
 }
 void Thread::cancel() {
+  if ( !isRunning() ) {
+    // never started, finished, cancelled or joined: there may be no such thread anymore
+    ecl_debug_throw(StandardException(LOC,InvalidInputError,"The thread is not running."));
+    return;
+  }
   int result = pthread_cancel(thread_handle);
-  // Note - if we reach here, then entrypoint hasn't gone through to conclusion and
-  // subsequently the thread_task object on the heap hasn't been deleted. So...
-  // always delete it here!
-    if ( thread_task != NULL ) {
-      delete thread_task;
-      thread_task = NULL;
-    }
-    if ( result != 0 ) {
-        ecl_debug_throw(threads::throwPthreadJoinException(LOC,result));
-    }
+  // the task is released by the thread itself when it gets there.
+  running.reset();
+  if ( result != 0 ) {
+    ecl_debug_throw(threads::throwPthreadCancelException(LOC,result));
+  }
 }
 
 void Thread::join() {
-  join_requested = true;
-  if( thread_task != NULL ) {
-    int result = pthread_join( thread_handle, 0 ); // This also frees up memory like pthread_detach
-      ecl_assert_throw( result == 0, threads::throwPthreadJoinException(LOC,result));
-      (void) result; // for unused variable warnings, in case the assert wasn't triggered
+  if ( !has_started ) {
+    return;
+  }
+  if ( join_requested ) {
+    ecl_debug_throw(StandardException(LOC,InvalidInputError,"The thread has already been joined."));
+    return;
   }
+  int result = pthread_join( thread_handle, 0 ); // This also frees up memory like pthread_detach
+  join_requested = ( result == 0 );
+  ecl_assert_throw( result == 0, threads::throwPthreadJoinException(LOC,result));
 }
 
 void Thread::initialise(const long &stack_size) {
-- 
2.43.0


From 81de6ded37c3e7f2a915f97af2aa38bad30e01e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:47 +0000
Subject: [PATCH 059/129] fix: a priority that could not be set is reported,
 and does not end the process of a thread asking for it

---
 ecl_threads/include/ecl/threads/thread_pos.hpp | 10 ++++++++--
 ecl_threads/src/lib/priority_pos.cpp           |  8 ++++----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/ecl_threads/include/ecl/threads/thread_pos.hpp b/ecl_threads/include/ecl/threads/thread_pos.hpp
index b89812e..2f7533b 100644
--- a/ecl_threads/include/ecl/threads/thread_pos.hpp
+++ b/ecl_threads/include/ecl/threads/thread_pos.hpp
@@ -58,6 +58,12 @@ public:
 
 protected:
 	ThreadTaskBase(const Priority& priority) : running(new std::atomic<bool>(true)), priority_level(priority) {}; /**< This constructor is only enabled for child ThreadTask classes. **/
+	/** @brief Without the permission for it, the task runs with the priority it inherited. **/
+	void prioritise() {
+		ecl_try {
+			ecl::set_priority(priority_level);
+		} ecl_catch ( const StandardException & ) {}
+	}
 	ecl::Priority priority_level;
 };
 /**
@@ -98,7 +104,7 @@ public:
 	static void* EntryPoint(void *ptr_this) {
 	    // owns the task, also when the thread is cancelled
 	    std::unique_ptr< ThreadTask< F, false > > ptr(static_cast< ThreadTask< F, false > * >(ptr_this));
-	    ecl::set_priority(ptr->priority_level);
+	    ptr->prioritise();
 	    (ptr->function)();
 	    return NULL;
 	}
@@ -145,7 +151,7 @@ public:
 	static void* EntryPoint(void *ptr_this) {
 	    // owns the task, also when the thread is cancelled
 	    std::unique_ptr< ThreadTask< F, true > > ptr(static_cast< ThreadTask< F, true > * >(ptr_this));
-	    ecl::set_priority(ptr->priority_level);
+	    ptr->prioritise();
 	    (ptr->function)();
 	    return NULL;
 	}
diff --git a/ecl_threads/src/lib/priority_pos.cpp b/ecl_threads/src/lib/priority_pos.cpp
index 83d974e..9e0d50f 100644
--- a/ecl_threads/src/lib/priority_pos.cpp
+++ b/ecl_threads/src/lib/priority_pos.cpp
@@ -91,19 +91,19 @@ bool set_priority(Priority priority_level)
             break;
         }
         case HighPriority : {
-            setpriority(PRIO_PROCESS,0,PRIO_MIN + (PRIO_MAX-PRIO_MIN)/4);
+            return_value = setpriority(PRIO_PROCESS,0,PRIO_MIN + (PRIO_MAX-PRIO_MIN)/4);
             break;
         }
         case NormalPriority : {
-            setpriority(PRIO_PROCESS,0,PRIO_MIN + (PRIO_MAX-PRIO_MIN)/2);
+            return_value = setpriority(PRIO_PROCESS,0,PRIO_MIN + (PRIO_MAX-PRIO_MIN)/2);
             break;
         }
         case LowPriority : {
-            setpriority(PRIO_PROCESS,0,PRIO_MIN + 3*(PRIO_MAX-PRIO_MIN)/4);
+            return_value = setpriority(PRIO_PROCESS,0,PRIO_MIN + 3*(PRIO_MAX-PRIO_MIN)/4);
             break;
         }
         case BackgroundPriority : {
-            setpriority(PRIO_PROCESS,0,PRIO_MAX);
+            return_value = setpriority(PRIO_PROCESS,0,PRIO_MAX);
             break;
         }
         default : {
-- 
2.43.0


From 6ac2c3f8b6bb1490916ddc17ddb5c85413ebb0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:47 +0000
Subject: [PATCH 060/129] fix: the background priority is recognised

---
 ecl_threads/src/lib/priority_pos.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ecl_threads/src/lib/priority_pos.cpp b/ecl_threads/src/lib/priority_pos.cpp
index 9e0d50f..eb10369 100644
--- a/ecl_threads/src/lib/priority_pos.cpp
+++ b/ecl_threads/src/lib/priority_pos.cpp
@@ -176,6 +176,7 @@ Priority get_priority()
         case (PRIO_MIN + (PRIO_MAX-PRIO_MIN)/4) : { return HighPriority; }
         case (PRIO_MIN + (PRIO_MAX-PRIO_MIN)/2) : { return NormalPriority; }
         case (PRIO_MIN + 3*(PRIO_MAX-PRIO_MIN)/4) : { return LowPriority; }
+        case (PRIO_MAX-1) : // as far as linux goes
         case (PRIO_MAX) : { return BackgroundPriority; }
         default : return NormalPriority;
     }
-- 
2.43.0


From 7a8364a10a611de49548a4936b228708d4486b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:47 +0000
Subject: [PATCH 061/129] fix: whether a worker runs is known without data
 races, and it is started once only

---
 .../include/ecl/threads/threadable.hpp        | 29 +++++++++++++++----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/ecl_threads/include/ecl/threads/threadable.hpp b/ecl_threads/include/ecl/threads/threadable.hpp
index 1f90eb4..68109e8 100644
--- a/ecl_threads/include/ecl/threads/threadable.hpp
+++ b/ecl_threads/include/ecl/threads/threadable.hpp
@@ -27,6 +27,7 @@
 *****************************************************************************/
 
 #include <ecl/utilities/parameter.hpp>
+#include <atomic>
 #include <ecl/config/macros.hpp>
 #include "thread.hpp"
 #include "priority.hpp"
@@ -77,17 +78,35 @@ public:
 	 * @return bool : true if started, false if a worker thread is already running.
 	 */
 	bool start(const Priority &priority = DefaultPriority) {
-		if ( isRunning() ) { return false; }
-		isRunning(true); // This is not ideal, as it's not perfectly atomic (i.e. someone can query isRunning before this gets set).
-		Thread thread(&Threadable::executeThreadFunction,*this, priority);
-		return true;
+		if ( isRunning.exchange(true) ) { return false; }
+		Thread thread;
+		ecl_try {
+			if ( thread.start(&Threadable::executeThreadFunction,*this, priority).flag() == NoError ) { return true; }
+		} ecl_catch ( const StandardException &e ) {
+			isRunning(false);
+			ecl_throw(StandardException(LOC,e));
+		}
+		isRunning(false);
+		return false;
 	}
 	/**
 	 * @brief Used to check if a worker thread is already running.
 	 *
 	 * Use this to check if a worker thread is already running.
 	 */
-	Parameter<bool> isRunning;
+	class RunningFlag {
+	public:
+		RunningFlag(bool value) : flag(value) {}
+		RunningFlag(const RunningFlag &other) : flag(other()) {}
+		RunningFlag& operator=(const RunningFlag &other) { flag = other(); return *this; }
+		void operator=(bool value) { flag = value; }
+		bool operator()() const { return flag; }
+		void operator()(bool value) { flag = value; }
+		operator bool() const { return flag; }
+		bool exchange(bool value) { return flag.exchange(value); }
+	private:
+		std::atomic<bool> flag; // read and written by the worker thread and others
+	} isRunning;
 
 protected:
 	Threadable() : isRunning(false) {}
-- 
2.43.0


From e944533e89f316f250d481c243d42564b7562db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:47 +0000
Subject: [PATCH 062/129] fix: assigned signals and slots count their handles

---
 ecl_sigslots/include/ecl/sigslots/signal.hpp | 16 ++++++++++++----
 ecl_sigslots/include/ecl/sigslots/slot.hpp   | 16 ++++++++++++----
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/ecl_sigslots/include/ecl/sigslots/signal.hpp b/ecl_sigslots/include/ecl/sigslots/signal.hpp
index 843caa6..2c269f5 100644
--- a/ecl_sigslots/include/ecl/sigslots/signal.hpp
+++ b/ecl_sigslots/include/ecl/sigslots/signal.hpp
@@ -74,8 +74,7 @@ public:
 	 *
 	 * @param signal : the object to be copied.
 	 */
-	Signal(const Signal<Data>& signal) {
-		*this = signal;
+	Signal(const Signal<Data>& signal) : sigslot(signal.sigslot) {
 		sigslot->incrHandles();
 	}
 
@@ -97,6 +96,11 @@ public:
 	 * @brief Default assignment operator.
 	 */
 	void operator=( const Signal<Data>& signal) {
+		signal.sigslot->incrHandles();
+		sigslot->decrHandles();
+		if ( sigslot->handles() == 0 ) {
+			delete sigslot;
+		}
 		sigslot = signal.sigslot;
 	}
 
@@ -182,8 +186,7 @@ public:
 	 *
 	 * @param signal : the object to be copied.
 	 */
-	Signal(const Signal<Void>& signal) {
-		*this = signal;
+	Signal(const Signal<Void>& signal) : sigslot(signal.sigslot) {
 		sigslot->incrHandles();
 	}
 
@@ -191,6 +194,11 @@ public:
 	 * @brief Default assignment operator.
 	 */
 	void operator=( const Signal<Void>& signal) {
+		signal.sigslot->incrHandles();
+		sigslot->decrHandles();
+		if ( sigslot->handles() == 0 ) {
+			delete sigslot;
+		}
 		sigslot = signal.sigslot;
 	}
 
diff --git a/ecl_sigslots/include/ecl/sigslots/slot.hpp b/ecl_sigslots/include/ecl/sigslots/slot.hpp
index d6bed73..9e07146 100644
--- a/ecl_sigslots/include/ecl/sigslots/slot.hpp
+++ b/ecl_sigslots/include/ecl/sigslots/slot.hpp
@@ -116,8 +116,7 @@ public:
 	 *
 	 * @param slot : the object to be copied.
 	 */
-	Slot(const Slot<Data>& slot) {
-		*this = slot;
+	Slot(const Slot<Data>& slot) : sigslot(slot.sigslot) {
 		sigslot->incrHandles();
 	}
 
@@ -138,6 +137,11 @@ public:
 	 * @brief Default assignment operator.
 	 */
 	void operator=( const Slot<Data>& slot) {
+		slot.sigslot->incrHandles();
+		sigslot->decrHandles();
+		if ( sigslot->handles() == 0 ) {
+			delete sigslot;
+		}
 		sigslot = slot.sigslot;
 	}
 	/**
@@ -245,8 +249,7 @@ public:
 	 *
 	 * @param slot : the object to be copied.
 	 */
-	Slot(const Slot<Void>& slot) {
-		*this = slot;
+	Slot(const Slot<Void>& slot) : sigslot(slot.sigslot) {
 		sigslot->incrHandles();
 	}
 	/**
@@ -266,6 +269,11 @@ public:
 	 * @brief Default assignment operator.
 	 */
 	void operator=( const Slot<Void>& slot) {
+		slot.sigslot->incrHandles();
+		sigslot->decrHandles();
+		if ( sigslot->handles() == 0 ) {
+			delete sigslot;
+		}
 		sigslot = slot.sigslot;
 	}
 	/**
-- 
2.43.0


From 2d8d52ecb75aa9e2cedfd2409b271b6e307d49cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:47 +0000
Subject: [PATCH 063/129] fix: disconnecting from a topic that is gone already
 does no harm

---
 ecl_sigslots/include/ecl/sigslots/manager.hpp | 6 +++---
 ecl_sigslots/include/ecl/sigslots/sigslot.hpp | 4 +++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/ecl_sigslots/include/ecl/sigslots/manager.hpp b/ecl_sigslots/include/ecl/sigslots/manager.hpp
index f1c79a2..4930ce0 100644
--- a/ecl_sigslots/include/ecl/sigslots/manager.hpp
+++ b/ecl_sigslots/include/ecl/sigslots/manager.hpp
@@ -121,9 +121,9 @@ private:
 		typename std::map<std::string, Topic<Data> >::iterator iter = topics().find(topic);
 		if ( iter != topics().end() ) {
 			iter->second.disconnect(sigslot);
-		}
-		if ( iter->second.empty() ) {
-			topics().erase(iter);
+			if ( iter->second.empty() ) {
+				topics().erase(iter);
+			}
 		}
 	}
 
diff --git a/ecl_sigslots/include/ecl/sigslots/sigslot.hpp b/ecl_sigslots/include/ecl/sigslots/sigslot.hpp
index 4e36dad..7e3c934 100644
--- a/ecl_sigslots/include/ecl/sigslots/sigslot.hpp
+++ b/ecl_sigslots/include/ecl/sigslots/sigslot.hpp
@@ -167,7 +167,8 @@ public:
 	void disconnect(const std::string &topic) {
 		// std::set<std::string>::const_iterator listen_iter = subscriptions.find(topic);
 		publications.erase(topic); // Doesn't matter if it finds it or not.
-		SigSlotsManager<Void>::disconnect(topic,this);
+		subscriptions.erase(topic);
+		SigSlotsManager<Data>::disconnect(topic,this);
 	}
 	/**
 	 * @brief Disconnect the sigslot from all topics.
@@ -329,6 +330,7 @@ public:
 	 */
 	void disconnect(const std::string &topic) {
 		publications.erase(topic); // Doesn't matter if it finds it or not.
+		subscriptions.erase(topic);
 		SigSlotsManager<Void>::disconnect(topic,this);
 	}
 	/**
-- 
2.43.0


From 1a9850c854b80b7e361f245789f87a0074cb6044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:47 +0000
Subject: [PATCH 064/129] fix: slots may connect and disconnect while a signal
 is being emitted

---
 ecl_sigslots/include/ecl/sigslots/sigslot.hpp | 28 +++++++++++++------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/ecl_sigslots/include/ecl/sigslots/sigslot.hpp b/ecl_sigslots/include/ecl/sigslots/sigslot.hpp
index 7e3c934..e35e323 100644
--- a/ecl_sigslots/include/ecl/sigslots/sigslot.hpp
+++ b/ecl_sigslots/include/ecl/sigslots/sigslot.hpp
@@ -106,11 +106,17 @@ public:
 	void emit(Data data) {
 		typename PublicationMap::const_iterator topic_iter;
 		typename Subscribers::const_iterator slots_iter;
-		for ( topic_iter = publications.begin(); topic_iter != publications.end(); ++topic_iter ) {
-			const Subscribers* subscribers = topic_iter->second;
-			for ( slots_iter = subscribers->begin(); slots_iter != subscribers->end(); ++slots_iter ) {
+		// callbacks may connect and disconnect, so go through copies and call whoever is still connected.
+		const PublicationMap topics(publications);
+		for ( topic_iter = topics.begin(); topic_iter != topics.end(); ++topic_iter ) {
+			if ( publications.count(topic_iter->first) == 0 ) { continue; }
+			const Subscribers subscribers(*topic_iter->second);
+			for ( slots_iter = subscribers.begin(); slots_iter != subscribers.end(); ++slots_iter ) {
+				if ( publications.count(topic_iter->first) == 0 ) { break; }
 				SigSlot<Data> *sigslot = *slots_iter;
-				sigslot->process(data);
+				if ( topic_iter->second->count(sigslot) != 0 ) {
+					sigslot->process(data);
+				}
 			}
 		}
 	}
@@ -270,11 +276,17 @@ public:
 	void emit() {
 		PublicationMap::const_iterator topic_iter;
 		Subscribers::const_iterator slots_iter;
-		for ( topic_iter = publications.begin(); topic_iter != publications.end(); ++topic_iter ) {
-			const Subscribers* subscribers = topic_iter->second;
-			for ( slots_iter = subscribers->begin(); slots_iter != subscribers->end(); ++slots_iter ) {
+		// callbacks may connect and disconnect, so go through copies and call whoever is still connected.
+		const PublicationMap topics(publications);
+		for ( topic_iter = topics.begin(); topic_iter != topics.end(); ++topic_iter ) {
+			if ( publications.count(topic_iter->first) == 0 ) { continue; }
+			const Subscribers subscribers(*topic_iter->second);
+			for ( slots_iter = subscribers.begin(); slots_iter != subscribers.end(); ++slots_iter ) {
+				if ( publications.count(topic_iter->first) == 0 ) { break; }
 				SigSlot *sigslot = *slots_iter;
-				sigslot->process();
+				if ( topic_iter->second->count(sigslot) != 0 ) {
+					sigslot->process();
+				}
 			}
 		}
 	}
-- 
2.43.0


From 1543d4cfb2c945825bcfbc013e3107e9c7912ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:47 +0000
Subject: [PATCH 065/129] fix: signals and slots may be used by several threads
 at once

---
 ecl_sigslots/include/ecl/sigslots/manager.hpp | 13 ++++
 ecl_sigslots/include/ecl/sigslots/sigslot.hpp | 70 +++++++++++++------
 2 files changed, 61 insertions(+), 22 deletions(-)

diff --git a/ecl_sigslots/include/ecl/sigslots/manager.hpp b/ecl_sigslots/include/ecl/sigslots/manager.hpp
index 4930ce0..5e5076b 100644
--- a/ecl_sigslots/include/ecl/sigslots/manager.hpp
+++ b/ecl_sigslots/include/ecl/sigslots/manager.hpp
@@ -20,9 +20,11 @@
 
 #include <iostream>
 #include <map>
+#include <mutex>
 #include <string>
 #include <ecl/exceptions/standard_exception.hpp>
 #include <ecl/config/macros.hpp>
+#include <ecl/threads/mutex.hpp>
 #include <ecl/utilities/void.hpp>
 #include "topic.hpp"
 
@@ -57,6 +59,7 @@ public:
 	 * Only here for debugging purposes only.
 	 */
 	static void printStatistics() {
+		std::lock_guard<Mutex> lock(mutex());
 		std::cout << "Topics" << std::endl;
 		typename std::map< std::string, Topic<Data> >::iterator iter;
 		for ( iter = topics().begin(); iter != topics().end(); ++iter ) {
@@ -80,6 +83,7 @@ private:
 	 * @return const Subscribers& : a reference to the subscriber list.
 	 */
 	static const Subscribers* connectSignal(const std::string& topic, SigSlot<Data>* sigslot) {
+		std::lock_guard<Mutex> lock(mutex());
 		// Try and insert a new topic in case it doesn't already exist
 		// In any case, we always get the iterator back (to new or existing)
 		//
@@ -99,6 +103,7 @@ private:
 	 * @param sigslot : sigslot that will be subscribing (listening).
 	 */
 	static void connectSlot(const std::string& topic, SigSlot<Data>* sigslot) {
+		std::lock_guard<Mutex> lock(mutex());
 		// Try and insert a new topic in case it doesn't already exist
 		// In any case, we always get the iterator back (to new or existing)
 		//
@@ -118,6 +123,7 @@ private:
 	 * @param sigslot : the sigslots that is to be disconnected.
 	 */
 	static void disconnect(const std::string& topic, SigSlot<Data>* sigslot) {
+		std::lock_guard<Mutex> lock(mutex());
 		typename std::map<std::string, Topic<Data> >::iterator iter = topics().find(topic);
 		if ( iter != topics().end() ) {
 			iter->second.disconnect(sigslot);
@@ -137,6 +143,13 @@ private:
 		return !( topics().find(topic) == topics().end() );
 	}
 
+	/**
+	 * @brief Guards the topics, signals and slots of unrelated threads all share them.
+	 */
+	static Mutex& mutex() {
+		static Mutex &topics_mutex = *(new Mutex); // lives on at exit, for static signals and slots that disconnect then.
+		return topics_mutex;
+	}
 	/**
 	 * @brief Hack to create a static variable internally without.
 	 *
diff --git a/ecl_sigslots/include/ecl/sigslots/sigslot.hpp b/ecl_sigslots/include/ecl/sigslots/sigslot.hpp
index e35e323..843b045 100644
--- a/ecl_sigslots/include/ecl/sigslots/sigslot.hpp
+++ b/ecl_sigslots/include/ecl/sigslots/sigslot.hpp
@@ -18,9 +18,12 @@
 ** Includes
 *****************************************************************************/
 
+#include <atomic>
 #include <map>
+#include <mutex>
 #include <set>
 #include <string>
+#include <thread>
 #include <ecl/config/macros.hpp>
 #include <ecl/threads/mutex.hpp>
 #include <ecl/utilities/function_objects.hpp>
@@ -33,6 +36,21 @@
 
 namespace ecl {
 
+/*****************************************************************************
+** Interface [Processing]
+*****************************************************************************/
+/**
+ * @brief Counts a callback as running until this object goes out of scope.
+ */
+class ECL_LOCAL Processing {
+public:
+	Processing() : count(NULL) {}
+	~Processing() { if ( count != NULL ) { --(*count); } }
+	void begin(std::atomic<unsigned int> &counter) { count = &counter; ++counter; }
+private:
+	std::atomic<unsigned int> *count;
+};
+
 /*****************************************************************************
 ** Interface [General]
 *****************************************************************************/
@@ -90,7 +108,7 @@ public:
 	 */
 	~SigSlot() {
 		disconnect(); // stop any new processing from connected signals
-		mutex.lock(); // acts like a barrier - holds up here if function still processing stuff.
+		while ( processing_count != 0 ) { std::this_thread::yield(); } // acts like a barrier - holds up here if function still processing stuff.
 		delete function;
 	}
 
@@ -110,13 +128,21 @@ public:
 		const PublicationMap topics(publications);
 		for ( topic_iter = topics.begin(); topic_iter != topics.end(); ++topic_iter ) {
 			if ( publications.count(topic_iter->first) == 0 ) { continue; }
-			const Subscribers subscribers(*topic_iter->second);
+			Subscribers subscribers;
+			{
+				std::lock_guard<Mutex> lock(SigSlotsManager<Data>::mutex());
+				subscribers = *topic_iter->second;
+			}
 			for ( slots_iter = subscribers.begin(); slots_iter != subscribers.end(); ++slots_iter ) {
 				if ( publications.count(topic_iter->first) == 0 ) { break; }
 				SigSlot<Data> *sigslot = *slots_iter;
-				if ( topic_iter->second->count(sigslot) != 0 ) {
-					sigslot->process(data);
+				Processing processing;
+				{
+					std::lock_guard<Mutex> lock(SigSlotsManager<Data>::mutex());
+					if ( topic_iter->second->count(sigslot) == 0 ) { continue; }
+					processing.begin(sigslot->processing_count); // keeps it from being destroyed
 				}
+				sigslot->process(data);
 			}
 		}
 	}
@@ -127,12 +153,9 @@ public:
 	 * signals with their emit() methods.
 	 */
 	void process(Data data) {
-		mutex.trylock(); // Only lock if its not already locked.
-		++processing_count;
+		Processing processing;
+		processing.begin(processing_count);
 		(*function)(data);
-		if ( --processing_count == 0 ) {
-			mutex.unlock();
-		}
 	}
 	/**
 	 * @brief Connect a signal to the specified topic.
@@ -197,8 +220,7 @@ public:
 	const std::set<std::string>& subscribedTopics() { return subscriptions; }
 
 private:
-	Mutex mutex;
-	unsigned int processing_count; // number of running process()'
+	std::atomic<unsigned int> processing_count; // number of running process()', of any thread
 	unsigned int number_of_handles; // number of handles to this sigslot (allows copying)
 	std::set<std::string> subscriptions; // topics this sigslot is listening to
 	PublicationMap publications; // topics this sigslot is posting to, as well as the subscribers on the other end
@@ -260,7 +282,7 @@ public:
 	 */
 	~SigSlot() {
 		disconnect(); // stop any new processing from connected signals
-		mutex.lock(); // acts like a barrier - holds up here if function still processing stuff.
+		while ( processing_count != 0 ) { std::this_thread::yield(); } // acts like a barrier - holds up here if function still processing stuff.
 		delete function;
 	}
 
@@ -280,13 +302,21 @@ public:
 		const PublicationMap topics(publications);
 		for ( topic_iter = topics.begin(); topic_iter != topics.end(); ++topic_iter ) {
 			if ( publications.count(topic_iter->first) == 0 ) { continue; }
-			const Subscribers subscribers(*topic_iter->second);
+			Subscribers subscribers;
+			{
+				std::lock_guard<Mutex> lock(SigSlotsManager<Void>::mutex());
+				subscribers = *topic_iter->second;
+			}
 			for ( slots_iter = subscribers.begin(); slots_iter != subscribers.end(); ++slots_iter ) {
 				if ( publications.count(topic_iter->first) == 0 ) { break; }
 				SigSlot *sigslot = *slots_iter;
-				if ( topic_iter->second->count(sigslot) != 0 ) {
-					sigslot->process();
+				Processing processing;
+				{
+					std::lock_guard<Mutex> lock(SigSlotsManager<Void>::mutex());
+					if ( topic_iter->second->count(sigslot) == 0 ) { continue; }
+					processing.begin(sigslot->processing_count); // keeps it from being destroyed
 				}
+				sigslot->process();
 			}
 		}
 	}
@@ -298,12 +328,9 @@ public:
 	 */
 	void process(Void void_arg = Void()) {
 		(void)void_arg;
-		mutex.trylock(); // Only lock if its not already locked.
-		++processing_count;
+		Processing processing;
+		processing.begin(processing_count);
 		(*function)();
-		if ( --processing_count == 0 ) {
-			mutex.unlock();
-		}
 	}
 	/**
 	 * @brief Connect a signal to the specified topic.
@@ -364,8 +391,7 @@ public:
 	}
 
 private:
-	Mutex mutex;
-	unsigned int processing_count; // number of running process()'
+	std::atomic<unsigned int> processing_count; // number of running process()', of any thread
 	unsigned int number_of_handles; // number of handles to this sigslot (allows copying)
 	std::set<std::string> subscriptions; // topics this sigslot is listening to
 	PublicationMap publications; // topics this sigslot is posting to, as well as the subscribers on the other end
-- 
2.43.0


From 2e21e8924fa04c13791ebdafcadc1d399028bfbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:47 +0000
Subject: [PATCH 066/129] fix: signals and slots may outlive the list of topics
 at exit

---
 ecl_sigslots/include/ecl/sigslots/manager.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ecl_sigslots/include/ecl/sigslots/manager.hpp b/ecl_sigslots/include/ecl/sigslots/manager.hpp
index 5e5076b..45f9247 100644
--- a/ecl_sigslots/include/ecl/sigslots/manager.hpp
+++ b/ecl_sigslots/include/ecl/sigslots/manager.hpp
@@ -158,7 +158,8 @@ private:
 	 * @return map : a handle to the string id/topic database.
 	 */
 	static std::map< std::string, Topic<Data> >& topics() {
-		static std::map< std::string, Topic<Data> > topic_list;
+		// lives on at exit, for static signals and slots that disconnect then.
+		static std::map< std::string, Topic<Data> > &topic_list = *(new std::map< std::string, Topic<Data> >);
 		return topic_list;
 	}
 
-- 
2.43.0


From 8db09ffa4a3a4664ff3892ef8d8e709b22f46c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:04 +0000
Subject: [PATCH 067/129] fix: devices: the input console tells character 255
 from the end of the input

---
 ecl_devices/src/lib/console.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ecl_devices/src/lib/console.cpp b/ecl_devices/src/lib/console.cpp
index b3e1ad6..cefeaed 100644
--- a/ecl_devices/src/lib/console.cpp
+++ b/ecl_devices/src/lib/console.cpp
@@ -93,9 +93,10 @@ long IConsole::read(char &c)
 {
 	// fgets is a problem, it doesn't read the newline with the character,
 	// which means the next read from stdin will catch that newline first.
-    c = static_cast<char>(fgetc(stdin));
-    if ( c == EOF ) {
-    	ecl_assert_throw( c != EOF, StandardException(LOC, ReadError, "Failed to read from standard input."));
+    int result = fgetc(stdin); // a char cannot tell the end of the input from a character
+    c = static_cast<char>(result);
+    if ( result == EOF ) {
+    	ecl_assert_throw( result != EOF, StandardException(LOC, ReadError, "Failed to read from standard input."));
     	return 0; // fallover if not in debug mode.
     } else {
 //    	while ( fgetc(stdin) != '\n' ) {}
-- 
2.43.0


From 2904f407205df90a4e413f5feb0eff62cff17cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:47 +0000
Subject: [PATCH 068/129] fix: time: differences of time stamps of opposite
 sign are normalised

---
 ecl_time/src/lib/timestamp_base.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/ecl_time/src/lib/timestamp_base.cpp b/ecl_time/src/lib/timestamp_base.cpp
index cec3c31..3731765 100644
--- a/ecl_time/src/lib/timestamp_base.cpp
+++ b/ecl_time/src/lib/timestamp_base.cpp
@@ -172,6 +172,13 @@ void TimeStampBase::operator-=(const TimeStampBase& time_stamp ) {
     time_t sec = time.tv_sec - time_stamp.time.tv_sec;
     long nsec = time.tv_nsec - time_stamp.time.tv_nsec;
 
+    if ( nsec >= 1000000000L ) {
+      sec += 1;
+      nsec -= 1000000000L;
+    } else if ( nsec <= -1000000000L ) {
+      sec -= 1;
+      nsec += 1000000000L;
+    }
     if ( (sec > 0) && ( nsec < 0 )) {
         sec -= 1;
         nsec += 1000000000L;
@@ -187,6 +194,13 @@ TimeStampBase TimeStampBase::operator-(const TimeStampBase& time_stamp ) {
     time_t sec = time.tv_sec - time_stamp.time.tv_sec;
     long nsec = time.tv_nsec - time_stamp.time.tv_nsec;
 
+    if ( nsec >= 1000000000L ) {
+      sec += 1;
+      nsec -= 1000000000L;
+    } else if ( nsec <= -1000000000L ) {
+      sec -= 1;
+      nsec += 1000000000L;
+    }
     if ( (sec > 0) && ( nsec < 0 )) {
         sec -= 1;
         nsec += 1000000000L;
-- 
2.43.0


From 84e2dc687147a29b2f12daaa5e1d55e05964b96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:47 +0000
Subject: [PATCH 069/129] fix: time: compare, add and subtract constant time
 stamps exactly, not as doubles

---
 ecl_time/include/ecl/time/timestamp_base.hpp | 16 ++++++++--------
 ecl_time/src/lib/timestamp_base.cpp          | 16 ++++++++--------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/ecl_time/include/ecl/time/timestamp_base.hpp b/ecl_time/include/ecl/time/timestamp_base.hpp
index e16299b..2869505 100644
--- a/ecl_time/include/ecl/time/timestamp_base.hpp
+++ b/ecl_time/include/ecl/time/timestamp_base.hpp
@@ -141,37 +141,37 @@ public:
 	 * @param time_stamp : the rhv (timestamp) to be compared to this instance.
 	 * @return bool : the result of the comparison operation.
 	 */
-	bool operator==(const TimeStampBase& time_stamp);
+	bool operator==(const TimeStampBase& time_stamp) const;
 	/**
 	 * Inequality operator.
 	 * @param time_stamp : the rhv (timestamp) to be compared to this instance.
 	 * @return bool : the result of the comparison operation.
 	 */
-	bool operator!=(const TimeStampBase& time_stamp);
+	bool operator!=(const TimeStampBase& time_stamp) const;
 	/**
 	 * Less than or equal to operator.
 	 * @param time_stamp : the rhv (timestamp) to be compared to this instance.
 	 * @return bool : the result of the comparison operation.
 	 */
-	bool operator<=(const TimeStampBase& time_stamp);
+	bool operator<=(const TimeStampBase& time_stamp) const;
 	/**
 	 * Greater than or equal to operator.
 	 * @param time_stamp : the rhv (timestamp) to be compared to this instance.
 	 * @return bool : the result of the comparison operation.
 	 */
-	bool operator>=(const TimeStampBase& time_stamp);
+	bool operator>=(const TimeStampBase& time_stamp) const;
 	/**
 	 * Less than operator.
 	 * @param time_stamp : the rhv (timestamp) to be compared to this instance.
 	 * @return bool : the result of the comparison operation.
 	 */
-	bool operator<(const TimeStampBase& time_stamp);
+	bool operator<(const TimeStampBase& time_stamp) const;
 	/**
 	 * Greater than or equal to operator.
 	 * @param time_stamp : the rhv (timestamp) to be compared to this instance.
 	 * @return bool : the result of the comparison operation.
 	 */
-	bool operator>(const TimeStampBase& time_stamp);
+	bool operator>(const TimeStampBase& time_stamp) const;
 
 	/******************************************
 	** Mathematical Operators
@@ -181,7 +181,7 @@ public:
 	 * @param time_stamp : the rhv (timestamp to be added to this instance).
 	 * @return TimeStamp : the sum of the two timestamps.
 	 */
-	TimeStampBase operator+(const TimeStampBase& time_stamp );
+	TimeStampBase operator+(const TimeStampBase& time_stamp ) const;
 	/**
 	 * Sum operator that modifies this instance with the result.
 	 * @param time_stamp : the rhv (timestamp to be added to this instance).
@@ -196,7 +196,7 @@ public:
 	 * @return TimeStamp : the difference of the two timestamps.
 	 * @exception StandardException : throws if difference would create a negative timestamp [debug mode only].
 	 */
-	TimeStampBase operator-(const TimeStampBase& time_stamp );
+	TimeStampBase operator-(const TimeStampBase& time_stamp ) const;
 	/**
 	 * Difference operator that modifies this instance with the result.
 	 * Note that a difference that would result in a negative timestamp is not
diff --git a/ecl_time/src/lib/timestamp_base.cpp b/ecl_time/src/lib/timestamp_base.cpp
index 3731765..26d4ad9 100644
--- a/ecl_time/src/lib/timestamp_base.cpp
+++ b/ecl_time/src/lib/timestamp_base.cpp
@@ -63,7 +63,7 @@ const TimeStampBase& TimeStampBase::stamp (const time_t& seconds, const long& na
 ** Implementation [Comparison Operators]
 *****************************************************************************/
 
-bool TimeStampBase::operator==(const TimeStampBase& time_stamp ) {
+bool TimeStampBase::operator==(const TimeStampBase& time_stamp ) const {
     if( ( time_stamp.time.tv_sec == time.tv_sec ) && ( time_stamp.time.tv_nsec == time.tv_nsec ) ) {
         return true;
     } else {
@@ -71,7 +71,7 @@ bool TimeStampBase::operator==(const TimeStampBase& time_stamp ) {
     }
 }
 
-bool TimeStampBase::operator!=(const TimeStampBase& time_stamp ) {
+bool TimeStampBase::operator!=(const TimeStampBase& time_stamp ) const {
     if( ( time_stamp.time.tv_sec == time.tv_sec ) && ( time_stamp.time.tv_nsec == time.tv_nsec ) ) {
         return false;
     } else {
@@ -79,7 +79,7 @@ bool TimeStampBase::operator!=(const TimeStampBase& time_stamp ) {
     }
 }
 
-bool TimeStampBase::operator<=(const TimeStampBase& time_stamp ) {
+bool TimeStampBase::operator<=(const TimeStampBase& time_stamp ) const {
     if( time.tv_sec > time_stamp.time.tv_sec ) {
         return false;
     } else if ( time.tv_sec == time_stamp.time.tv_sec ) {
@@ -90,7 +90,7 @@ bool TimeStampBase::operator<=(const TimeStampBase& time_stamp ) {
     return true;
 }
 
-bool TimeStampBase::operator>=(const TimeStampBase& time_stamp ) {
+bool TimeStampBase::operator>=(const TimeStampBase& time_stamp ) const {
     if( time.tv_sec < time_stamp.time.tv_sec ) {
         return false;
     } else if ( time.tv_sec == time_stamp.time.tv_sec ) {
@@ -101,7 +101,7 @@ bool TimeStampBase::operator>=(const TimeStampBase& time_stamp ) {
     return true;
 }
 
-bool TimeStampBase::operator<(const TimeStampBase& time_stamp ) {
+bool TimeStampBase::operator<(const TimeStampBase& time_stamp ) const {
     if( time.tv_sec > time_stamp.time.tv_sec ) {
         return false;
     } else if ( time.tv_sec == time_stamp.time.tv_sec ) {
@@ -112,7 +112,7 @@ bool TimeStampBase::operator<(const TimeStampBase& time_stamp ) {
     return true;
 }
 
-bool TimeStampBase::operator>(const TimeStampBase& time_stamp ) {
+bool TimeStampBase::operator>(const TimeStampBase& time_stamp ) const {
     if( time.tv_sec < time_stamp.time.tv_sec ) {
         return false;
     } else if ( time.tv_sec == time_stamp.time.tv_sec ) {
@@ -147,7 +147,7 @@ void TimeStampBase::operator+=(const TimeStampBase& time_stamp ) {
     time.tv_nsec = nsec;
 }
 
-TimeStampBase TimeStampBase::operator+(const TimeStampBase& time_stamp ) {
+TimeStampBase TimeStampBase::operator+(const TimeStampBase& time_stamp ) const {
     long sec = time.tv_sec + time_stamp.time.tv_sec;
     int64 nsec = time.tv_nsec + time_stamp.time.tv_nsec;
     if ( nsec >= 1000000000L ) {
@@ -190,7 +190,7 @@ void TimeStampBase::operator-=(const TimeStampBase& time_stamp ) {
     time.tv_nsec = nsec;
 }
 
-TimeStampBase TimeStampBase::operator-(const TimeStampBase& time_stamp ) {
+TimeStampBase TimeStampBase::operator-(const TimeStampBase& time_stamp ) const {
     time_t sec = time.tv_sec - time_stamp.time.tv_sec;
     long nsec = time.tv_nsec - time_stamp.time.tv_nsec;
 
-- 
2.43.0


From e808e301776a4377991df68fefdce0b5872f6b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:47 +0000
Subject: [PATCH 070/129] fix: time: micro and nano sleepers accept sleeps of a
 second and more

---
 ecl_time/src/lib/sleep_pos.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ecl_time/src/lib/sleep_pos.cpp b/ecl_time/src/lib/sleep_pos.cpp
index db3764b..d0910d4 100644
--- a/ecl_time/src/lib/sleep_pos.cpp
+++ b/ecl_time/src/lib/sleep_pos.cpp
@@ -101,7 +101,8 @@ void MicroSleep::operator ()() {
 }
 
 void MicroSleep::operator ()(const unsigned long &micro_seconds) {
-  required.tv_nsec = 1000*micro_seconds;
+  required.tv_sec = micro_seconds/1000000; // integer division
+  required.tv_nsec = (micro_seconds%1000000)*1000;
   int result = nanosleep(&required, &remaining);
   ecl_assert_throw( result == 0, time::throwSleepException(LOC) );
   (void) result; // for unused variable warnings, in case the assert wasn't triggered
@@ -123,7 +124,8 @@ void NanoSleep::operator ()() {
 }
 
 void NanoSleep::operator ()(const unsigned long &nanoseconds) {
-  required.tv_nsec = nanoseconds;
+  required.tv_sec = nanoseconds/1000000000; // integer division
+  required.tv_nsec = nanoseconds%1000000000;
   int result = nanosleep(&required, &remaining);
   ecl_assert_throw( result == 0, time::throwSleepException(LOC) );
   (void) result; // for unused variable warnings, in case the assert wasn't triggered
-- 
2.43.0


From 777dce93e357307178bd295b6e2aa39280cbb9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:47 +0000
Subject: [PATCH 071/129] fix: time: snoozers carry on reaching a whole second

---
 ecl_time/src/lib/snooze_pos.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_time/src/lib/snooze_pos.cpp b/ecl_time/src/lib/snooze_pos.cpp
index 40062b7..fbf2587 100644
--- a/ecl_time/src/lib/snooze_pos.cpp
+++ b/ecl_time/src/lib/snooze_pos.cpp
@@ -57,7 +57,7 @@ void Snooze::operator()() {
 void Snooze::add_period() {
 
 	// Nanoseconds
-    if ( time_value.tv_nsec > wrap_value_ns ) { // wrap
+    if ( time_value.tv_nsec >= wrap_value_ns ) { // wrap
         time_value.tv_nsec = time_value.tv_nsec - wrap_value_ns;
         time_value.tv_sec += 1;
     } else {
-- 
2.43.0


From e3405e9ef34f27531f8e50496ed1ded50411d8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:47 +0000
Subject: [PATCH 072/129] fix: time: snoozers resync with the current time only
 when asked to, and once

---
 ecl_time/src/lib/snooze_pos.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/ecl_time/src/lib/snooze_pos.cpp b/ecl_time/src/lib/snooze_pos.cpp
index fbf2587..37e39fb 100644
--- a/ecl_time/src/lib/snooze_pos.cpp
+++ b/ecl_time/src/lib/snooze_pos.cpp
@@ -50,7 +50,9 @@ void Snooze::initialise() {
 void Snooze::operator()() {
 
     add_period();
-    validate();
+    if ( validate_times ) {
+    	validate();
+    }
     sleep_until(time_value);
 }
 
@@ -65,10 +67,6 @@ void Snooze::add_period() {
     }
     // Seconds
     time_value.tv_sec += time_period.tv_sec;
-
-    if ( validate_times ) {
-    	validate();
-    }
 }
 
 void Snooze::validate() {
-- 
2.43.0


From fcd955b19c66688f97b8daf4d3e85db03466e8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:47 +0000
Subject: [PATCH 073/129] fix: time: the frequency monitor analyses by the
 clock it was asked to use

---
 ecl_time/src/lib/frequency.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ecl_time/src/lib/frequency.cpp b/ecl_time/src/lib/frequency.cpp
index ab693e2..95c6b59 100644
--- a/ecl_time/src/lib/frequency.cpp
+++ b/ecl_time/src/lib/frequency.cpp
@@ -23,7 +23,11 @@ FrequencyMonitor::FrequencyMonitor(
 )
 : current_diagnostics()
 , incoming_counter(0)
+#if defined(ECL_HAS_RT_TIMERS)
+, last_anyalsed((use_realtime_clock) ? ecl::TimeStamp::realtime_now() : ecl::TimeStamp())
+#else
 , last_anyalsed()
+#endif
 , minimum_interval(100000.0) // something ridiculously large so the next interval will fall underneath it
 , maximum_interval(0.0)
 , period(window_period)
@@ -56,7 +60,7 @@ void FrequencyMonitor::update() {
 
 const FrequencyDiagnostics& FrequencyMonitor::analyse() {
 #if defined(ECL_HAS_RT_TIMERS)
-  ecl::TimeStamp now = ecl::TimeStamp::realtime_now();
+  ecl::TimeStamp now = (use_realtime_clock) ? ecl::TimeStamp::realtime_now() : ecl::TimeStamp();
 #else
   ecl::TimeStamp now = ecl::TimeStamp();
 #endif
-- 
2.43.0


From 274e74a1ca71bb4640b9bde4d74519f46c9b2060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:47 +0000
Subject: [PATCH 074/129] fix: time: each random number generator keeps its own
 spare gaussian value

---
 ecl_time/include/ecl/time/random_number_generator.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ecl_time/include/ecl/time/random_number_generator.hpp b/ecl_time/include/ecl/time/random_number_generator.hpp
index 37c2ed4..2e465fe 100644
--- a/ecl_time/include/ecl/time/random_number_generator.hpp
+++ b/ecl_time/include/ecl/time/random_number_generator.hpp
@@ -38,12 +38,12 @@ template<typename T>
 class RandomNumberGenerator
 {
 public:
-  RandomNumberGenerator( const unsigned int randSeed )
+  RandomNumberGenerator( const unsigned int randSeed ) : y2(0), use_last(false)
   {
     srand( randSeed );
   }
 
-  RandomNumberGenerator()
+  RandomNumberGenerator() : y2(0), use_last(false)
   {
     RandomNumberGenerator::seed();
   }
@@ -61,8 +61,6 @@ public:
   T gaussian( const T & std, const T & mu = 0 )
   {
     T x1, x2, w, y1;
-    static T y2;
-    static bool use_last = false;
 
     if (use_last)  /* use value from previous call */
     {
@@ -87,6 +85,9 @@ public:
   }
 
 private:
+  T y2;          // spare gaussian value
+  bool use_last; // whether the spare value is yet to be used
+
   /**
    * @brief Seed the system random number generator.
    *
-- 
2.43.0


From 0b9b73281056c82dfff8c2c13c55d08bf4636fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:01 +0000
Subject: [PATCH 075/129] fix: ipc: timed tries of semaphores measure their
 deadline by the clock they wait by

---
 ecl_ipc/src/lib/semaphore_pos.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ecl_ipc/src/lib/semaphore_pos.cpp b/ecl_ipc/src/lib/semaphore_pos.cpp
index 7a8291a..8787790 100644
--- a/ecl_ipc/src/lib/semaphore_pos.cpp
+++ b/ecl_ipc/src/lib/semaphore_pos.cpp
@@ -143,7 +143,8 @@ bool Semaphore::trylock( const Duration &timeout ) {
 		long tnsec;
 		timespec ctime;
 
-		if ( epoch_time(ctime).flag() != NoError ) { return false; }
+		// sem_timedwait measures its deadline by the realtime clock
+		if ( clock_gettime(CLOCK_REALTIME, &ctime) != 0 ) { return false; }
 
 		ctime.tv_sec += timeout.sec();
 
-- 
2.43.0


From 84c829f23450d39a64758540db5fa58596158fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:01 +0000
Subject: [PATCH 076/129] fix: ipc: carry the deadline of a timed try at a full
 second

---
 ecl_ipc/src/lib/semaphore_pos.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_ipc/src/lib/semaphore_pos.cpp b/ecl_ipc/src/lib/semaphore_pos.cpp
index 8787790..92dcde0 100644
--- a/ecl_ipc/src/lib/semaphore_pos.cpp
+++ b/ecl_ipc/src/lib/semaphore_pos.cpp
@@ -149,7 +149,7 @@ bool Semaphore::trylock( const Duration &timeout ) {
 		ctime.tv_sec += timeout.sec();
 
 		tnsec = ctime.tv_nsec + timeout.nsec();
-		if(tnsec >=  999999999 ) { ctime.tv_sec += 1; }
+		if(tnsec >= 1000000000 ) { ctime.tv_sec += 1; }
 		tnsec %= 1000000000;
 		ctime.tv_nsec = tnsec;
 
-- 
2.43.0


From 470d125bdf5359f111915892c3a024df601c5fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:01 +0000
Subject: [PATCH 077/129] fix: ipc: a signal does not let a locker into a held
 semaphore

---
 ecl_ipc/src/lib/semaphore_pos.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_ipc/src/lib/semaphore_pos.cpp b/ecl_ipc/src/lib/semaphore_pos.cpp
index 92dcde0..38190a9 100644
--- a/ecl_ipc/src/lib/semaphore_pos.cpp
+++ b/ecl_ipc/src/lib/semaphore_pos.cpp
@@ -103,7 +103,7 @@ Semaphore::~Semaphore()
 
 void Semaphore::lock()
 {
-	sem_wait(semaphore);
+	while ( ( sem_wait(semaphore) != 0 ) && ( errno == EINTR ) ) {} // a signal does not lend the lock
 }
 
 int Semaphore::count()
-- 
2.43.0


From 59521005e8675d1103e1789c5de236a0ba3c9ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:01 +0000
Subject: [PATCH 078/129] fix: ipc: opening shared memory while it is being
 removed creates it anew

---
 ecl_ipc/src/lib/shared_memory_pos.cpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/ecl_ipc/src/lib/shared_memory_pos.cpp b/ecl_ipc/src/lib/shared_memory_pos.cpp
index 7430e0b..3d28f02 100644
--- a/ecl_ipc/src/lib/shared_memory_pos.cpp
+++ b/ecl_ipc/src/lib/shared_memory_pos.cpp
@@ -87,15 +87,17 @@ int SharedMemoryBase::open() {
     /*************************************************************************
     ** Open
     *************************************************************************/
-    int shm_descriptor = shm_open(name.c_str(),create_flags,permissions);
-    if ( ( shm_descriptor == -1 ) && ( errno == EEXIST ) ) {
-        // Maybe its already open, try opening it normally
-        shm_descriptor = shm_open(name.c_str(),open_flags,permissions);
-    } else {
-    	shared_memory_manager = true;
-    }
-    if ( shm_descriptor == -1) {
-    }
+    int shm_descriptor;
+    do {
+        shm_descriptor = shm_open(name.c_str(),create_flags,permissions);
+        if ( ( shm_descriptor == -1 ) && ( errno == EEXIST ) ) {
+            // Maybe its already open, try opening it normally
+            shm_descriptor = shm_open(name.c_str(),open_flags,permissions);
+        } else {
+            shared_memory_manager = ( shm_descriptor != -1 );
+            break;
+        }
+    } while ( ( shm_descriptor == -1 ) && ( errno == ENOENT ) ); // removed in between, try again
 	return shm_descriptor;
 }
 
-- 
2.43.0


From 936c9cbec0a045b897035bf52177d6b9542222ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:01 +0000
Subject: [PATCH 079/129] fix: ipc: failing to map shared memory leaves the
 memory of others alone and leaks nothing

---
 ecl_ipc/include/ecl/ipc/shared_memory_pos.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/ecl_ipc/include/ecl/ipc/shared_memory_pos.hpp b/ecl_ipc/include/ecl/ipc/shared_memory_pos.hpp
index 88f8894..4b8d3d7 100644
--- a/ecl_ipc/include/ecl/ipc/shared_memory_pos.hpp
+++ b/ecl_ipc/include/ecl/ipc/shared_memory_pos.hpp
@@ -42,6 +42,7 @@
 ** Includes
 *****************************************************************************/
 
+#include <cerrno>
 #include <sstream>
 #include <string>
 #include <sys/mman.h>        /* For shm_open() */
@@ -195,9 +196,12 @@ SharedMemory<Storage>::SharedMemory(const std::string& string_id ) :
     void * shm_address;
     if ( (shm_address = mmap(0,shared_memory_size,PROT_READ|PROT_WRITE,MAP_SHARED,shm_descriptor,(long) 0)) == MAP_FAILED )
     {
-        shared_memory_manager = false;
+        int map_error = errno;
         close(shm_descriptor);
-        unlink();
+        if ( shared_memory_manager ) {
+            unlink();
+        }
+        errno = map_error;
         ecl_throw( ipc::memoryMapException(LOC) );
     }
     /*
@@ -206,9 +210,11 @@ SharedMemory<Storage>::SharedMemory(const std::string& string_id ) :
      */
     if ( ftruncate(shm_descriptor,shared_memory_size) < 0 )
     {
-        shared_memory_manager = false;
         close(shm_descriptor);
-        unlink();
+        munmap(shm_address,shared_memory_size);
+        if ( shared_memory_manager ) {
+            unlink();
+        }
         ecl_throw(StandardException(LOC,OpenError,"Shared memory created, but inflation to the desired size failed."));
     }
 
-- 
2.43.0


From 042d885ec791229b721429e9ff9102ee10f973f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:01 +0000
Subject: [PATCH 080/129] fix: ipc: shared memory already unlinked does not
 remove its successor

---
 ecl_ipc/src/lib/shared_memory_pos.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ecl_ipc/src/lib/shared_memory_pos.cpp b/ecl_ipc/src/lib/shared_memory_pos.cpp
index 3d28f02..aa99082 100644
--- a/ecl_ipc/src/lib/shared_memory_pos.cpp
+++ b/ecl_ipc/src/lib/shared_memory_pos.cpp
@@ -38,6 +38,7 @@ namespace ipc {
 
 void SharedMemoryBase::unlink() {
 	shm_unlink(name.c_str());
+	shared_memory_manager = false; // whatever takes this name from now on is not ours to remove
 }
 
 int SharedMemoryBase::open() {
-- 
2.43.0


From cd3bf35e1da238ed7a0faaeec0b86fbc276b6eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:55 +0000
Subject: [PATCH 081/129] fix: devices: a socket client closes its own
 descriptor only, and once

---
 ecl_devices/include/ecl/devices/socket_client_pos.hpp |  2 +-
 ecl_devices/src/lib/socket_client_pos.cpp             | 11 +++++++----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/ecl_devices/include/ecl/devices/socket_client_pos.hpp b/ecl_devices/include/ecl/devices/socket_client_pos.hpp
index 6e957c4..b218e66 100644
--- a/ecl_devices/include/ecl/devices/socket_client_pos.hpp
+++ b/ecl_devices/include/ecl/devices/socket_client_pos.hpp
@@ -66,7 +66,7 @@ public:
 	/*********************
 	** C&D
 	**********************/
-	SocketClient() : is_open(false), error_handler(NoError) {}; /**< @brief Default constructor, use with open(). **/
+	SocketClient() : port(0), socket_fd(-1), is_open(false), error_handler(NoError) {}; /**< @brief Default constructor, use with open(). **/
 	/**
 	 * @brief Automatically configures, opens and begins listening on the specified port.
 	 *
diff --git a/ecl_devices/src/lib/socket_client_pos.cpp b/ecl_devices/src/lib/socket_client_pos.cpp
index 14d0cd3..cede923 100644
--- a/ecl_devices/src/lib/socket_client_pos.cpp
+++ b/ecl_devices/src/lib/socket_client_pos.cpp
@@ -46,6 +46,7 @@ using std::string;
 SocketClient::SocketClient(const std::string &host_name, const unsigned int &port_number) :
 		hostname(host_name),
 		port(port_number),
+		socket_fd(-1),
 		is_open(false),
 		error_handler(NoError)
 {
@@ -58,7 +59,10 @@ SocketClient::SocketClient(const std::string &host_name, const unsigned int &por
 
 void SocketClient::close() {
 	 is_open = false;
-	 ::close(socket_fd); // should have error handling here
+	 if ( socket_fd != -1 ) {
+		 ::close(socket_fd); // should have error handling here
+		 socket_fd = -1;
+	 }
 }
 
 bool SocketClient::open( const std::string &host_name, const unsigned int& port_number ) {
@@ -97,7 +101,7 @@ bool SocketClient::open( const std::string &host_name, const unsigned int& port_
      ******************************************/
     host_entry = gethostbyname(hostname.c_str());
     if ( host_entry == NULL ) { // gethostbyname doesn't seem to be checking hostname validity???
-    	::close(socket_fd);
+    	close();
     	ecl_throw(devices::gethostbyname_exception(LOC,hostname));
     	error_handler = devices::gethostbyname_error();
     	return false;
@@ -117,8 +121,7 @@ bool SocketClient::open( const std::string &host_name, const unsigned int& port_
 	**********************/
     int connect_result = connect( socket_fd, (struct sockaddr *) &destination, sizeof(destination) );
     if ( connect_result == -1 ) {
-    	is_open = false;
-    	::close(socket_fd);
+    	close();
     	ecl_throw(devices::connection_exception(LOC));
     	error_handler = devices::connection_error();
     	return false;
-- 
2.43.0


From 118a08b0036ea5431bb1ab87e76f431529601711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:55 +0000
Subject: [PATCH 082/129] fix: devices: a socket server hangs up on its client
 when closed, closes its own descriptors only, and is not open when it could
 not bind

---
 .../include/ecl/devices/socket_server_pos.hpp |  4 ++--
 ecl_devices/src/lib/socket_server_pos.cpp     | 23 ++++++++++++++++++-
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/ecl_devices/include/ecl/devices/socket_server_pos.hpp b/ecl_devices/include/ecl/devices/socket_server_pos.hpp
index 4cddb84..c1be79c 100644
--- a/ecl_devices/include/ecl/devices/socket_server_pos.hpp
+++ b/ecl_devices/include/ecl/devices/socket_server_pos.hpp
@@ -62,7 +62,7 @@ public:
 	/*********************
 	** C&D
 	**********************/
-	SocketServer() : is_open(false) {}; /**< @brief Default constructor, use with open(). **/
+	SocketServer() : port(0), socket_fd(-1), client_socket_fd(-1), is_open(false), error_handler(NoError) {}; /**< @brief Default constructor, use with open(). **/
 	/**
 	 * @brief Automatically configures, opens and begins listening on the specified port.
 	 *
@@ -107,7 +107,7 @@ public:
 	 * from 20 seconds to 4 minutes to me.  The official standard says
 	 * that it should be 4 minutes.
 	 */
-	void close() { is_open = false; ::close(socket_fd); }
+	void close();
 
 	bool open() const { return is_open; }
 
diff --git a/ecl_devices/src/lib/socket_server_pos.cpp b/ecl_devices/src/lib/socket_server_pos.cpp
index 8271b69..044128e 100644
--- a/ecl_devices/src/lib/socket_server_pos.cpp
+++ b/ecl_devices/src/lib/socket_server_pos.cpp
@@ -35,6 +35,8 @@ namespace ecl {
 
 SocketServer::SocketServer(const unsigned int &port_number) :
 		port(port_number),
+		socket_fd(-1),
+		client_socket_fd(-1),
 		is_open(false),
 		error_handler(NoError)
 {
@@ -45,6 +47,18 @@ SocketServer::SocketServer(const unsigned int &port_number) :
     }
 }
 
+void SocketServer::close() {
+	is_open = false;
+	if ( client_socket_fd != -1 ) {
+		::close(client_socket_fd);
+		client_socket_fd = -1;
+	}
+	if ( socket_fd != -1 ) {
+		::close(socket_fd);
+		socket_fd = -1;
+	}
+}
+
 bool SocketServer::open( const unsigned int& port_number ) {
 
     if ( this->open() ) { this->close(); }
@@ -84,7 +98,9 @@ bool SocketServer::open( const unsigned int& port_number ) {
      ************************************************************************/
     int bind_result = bind(socket_fd, (struct sockaddr *) &server, sizeof(server));
     if ( bind_result == - 1 ) {
-    	is_open = true;
+    	const int bind_errno = errno;
+    	close();
+    	errno = bind_errno;
     	ecl_throw(devices::bind_exception(LOC));
     	error_handler = devices::bind_error();
     	return false;
@@ -107,6 +123,11 @@ int SocketServer::listen() {
     struct sockaddr_in client;
     int client_length = sizeof(client);
 
+    // one connection at a time, a new one replaces the last
+    if ( client_socket_fd != -1 ) {
+    	::close(client_socket_fd);
+    	client_socket_fd = -1;
+    }
     client_socket_fd = accept(socket_fd, (struct sockaddr *) &client, (socklen_t *) &client_length);
     if (client_socket_fd < 0) {
     	ecl_throw(devices::accept_exception(LOC));
-- 
2.43.0


From 16ce6bc1480705a295a896975f546bc0d8ee3ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:55 +0000
Subject: [PATCH 083/129] fix: devices: sockets count waiting bytes correctly,
 and a server without a client refuses to transfer

---
 ecl_devices/src/lib/socket_client_pos.cpp |  3 ++-
 ecl_devices/src/lib/socket_server_pos.cpp | 12 ++++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/ecl_devices/src/lib/socket_client_pos.cpp b/ecl_devices/src/lib/socket_client_pos.cpp
index cede923..c8c4474 100644
--- a/ecl_devices/src/lib/socket_client_pos.cpp
+++ b/ecl_devices/src/lib/socket_client_pos.cpp
@@ -194,11 +194,12 @@ long SocketClient::remaining() {
 
     if ( !open() ) { return ConnectionDisconnected; }
 
-    unsigned long bytes;
+    int bytes = 0;
     int result = ioctl(socket_fd, FIONREAD, &bytes);
     if ( result == -1 ) {
     	ecl_debug_throw( devices::ioctl_exception(LOC) );
     	error_handler =  devices::ioctl_error();
+    	return ConnectionProblem;
     }
     error_handler = NoError;
     return bytes;
diff --git a/ecl_devices/src/lib/socket_server_pos.cpp b/ecl_devices/src/lib/socket_server_pos.cpp
index 044128e..6d65c75 100644
--- a/ecl_devices/src/lib/socket_server_pos.cpp
+++ b/ecl_devices/src/lib/socket_server_pos.cpp
@@ -145,7 +145,7 @@ int SocketServer::listen() {
 
 long SocketServer::read(char *s, const unsigned long &n) {
 
-    if ( !open() ) { return ConnectionDisconnected; }
+	if ( !open() || ( client_socket_fd == -1 ) ) { return ConnectionDisconnected; }
 
     int bytes_read = ::recv(client_socket_fd, s, n, 0);
     if ( bytes_read < 0 ) {
@@ -165,6 +165,8 @@ long SocketServer::read(char *s, const unsigned long &n) {
 
 long SocketServer::peek(char *s, const unsigned long &n) {
 
+	if ( !open() || ( client_socket_fd == -1 ) ) { return ConnectionDisconnected; }
+
 	int bytes_read = ::recv(client_socket_fd, s, n, MSG_PEEK);
     if ( bytes_read < 0 ) {
     	ecl_debug_throw(devices::receive_exception(LOC));
@@ -176,7 +178,10 @@ long SocketServer::peek(char *s, const unsigned long &n) {
 }
 
 long SocketServer::remaining() {
-    unsigned long bytes;
+
+	if ( !open() || ( client_socket_fd == -1 ) ) { return ConnectionDisconnected; }
+
+    int bytes = 0;
     int result = ioctl(client_socket_fd, FIONREAD, &bytes);
     if ( result == -1 ) {
     	ecl_debug_throw(devices::ioctl_exception(LOC));
@@ -193,6 +198,9 @@ long SocketServer::remaining() {
 *****************************************************************************/
 
 long SocketServer::write(const char *s, unsigned long n) {
+
+	if ( !open() || ( client_socket_fd == -1 ) ) { return ConnectionDisconnected; }
+
     #ifdef MSG_NOSIGNAL
         int bytes_written = ::send(client_socket_fd,s,n,0|MSG_NOSIGNAL);
     #else
-- 
2.43.0


From 49f683f3b04122d10b5da22c27ff26f27ed906f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:55 +0000
Subject: [PATCH 084/129] fix: devices: a connection reset by the other end is
 a hang up, whoever notices it and whatever for

---
 ecl_devices/src/lib/socket_client_pos.cpp | 1 +
 ecl_devices/src/lib/socket_server_pos.cpp | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/ecl_devices/src/lib/socket_client_pos.cpp b/ecl_devices/src/lib/socket_client_pos.cpp
index c8c4474..a05e5f3 100644
--- a/ecl_devices/src/lib/socket_client_pos.cpp
+++ b/ecl_devices/src/lib/socket_client_pos.cpp
@@ -225,6 +225,7 @@ long SocketClient::write(const char *s, unsigned long n) {
 
     if ( bytes_written < 0 ) {
         switch(errno) {
+            case ( ECONNRESET ) :
             case ( EPIPE ) : {
                 close();
                 return ConnectionHungUp;
diff --git a/ecl_devices/src/lib/socket_server_pos.cpp b/ecl_devices/src/lib/socket_server_pos.cpp
index 6d65c75..3d91090 100644
--- a/ecl_devices/src/lib/socket_server_pos.cpp
+++ b/ecl_devices/src/lib/socket_server_pos.cpp
@@ -149,6 +149,10 @@ long SocketServer::read(char *s, const unsigned long &n) {
 
     int bytes_read = ::recv(client_socket_fd, s, n, 0);
     if ( bytes_read < 0 ) {
+    	if ( errno == ECONNRESET ) {
+    		close();
+    		return ConnectionHungUp;
+    	}
     	ecl_debug_throw(devices::receive_exception(LOC));
     	error_handler = devices::receive_error();
     	return ConnectionProblem;
@@ -208,6 +212,7 @@ long SocketServer::write(const char *s, unsigned long n) {
     #endif
     if ( bytes_written < 0 ) {
         switch(errno) {
+            case ( ECONNRESET ) :
             case ( EPIPE ) : {
                 close();
                 return ConnectionHungUp;
-- 
2.43.0


From d21e21b1536a54750f308f0f28976271677f7815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:55 +0000
Subject: [PATCH 085/129] fix: devices: time outs and denied permission are
 told apart from unknown socket errors

---
 .../include/ecl/devices/detail/socket_error_handler_pos.hpp | 6 +++---
 ecl_devices/src/lib/detail/socket_exception_handler_pos.cpp | 6 +++---
 ecl_devices/src/lib/socket_client_pos.cpp                   | 1 +
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/ecl_devices/include/ecl/devices/detail/socket_error_handler_pos.hpp b/ecl_devices/include/ecl/devices/detail/socket_error_handler_pos.hpp
index a0386f4..42b6fee 100644
--- a/ecl_devices/include/ecl/devices/detail/socket_error_handler_pos.hpp
+++ b/ecl_devices/include/ecl/devices/detail/socket_error_handler_pos.hpp
@@ -112,7 +112,7 @@ inline ecl::Error accept_error() {
 inline ecl::Error receive_error() {
 
   switch( errno ) {
-              case ( EAGAIN || EWOULDBLOCK ) : return ecl::Error(ecl::InterruptedError);
+              case ( EWOULDBLOCK ) : return ecl::Error(ecl::InterruptedError);
               case ( EBADF       ) : return ecl::Error(ecl::InvalidObjectError);
               case ( ECONNREFUSED) : return ecl::Error(ecl::ConnectionError);
               case ( EFAULT      ) : return ecl::Error(ecl::SystemFailureError);
@@ -148,7 +148,6 @@ inline ecl::Error ioctl_error() {
 inline ecl::Error send_error() {
 
   switch( errno ) {
-          case ( EAGAIN || EWOULDBLOCK ) : return ecl::Error(ecl::BlockingError);
           case ( EWOULDBLOCK ) : return ecl::Error(ecl::BlockingError);
           case ( EACCES      ) : return ecl::Error(ecl::PermissionsError);
           case ( EBADF       ) : return ecl::Error(ecl::InvalidObjectError);
@@ -188,7 +187,8 @@ inline ecl::Error gethostbyname_error() {
  */
 inline ecl::Error connection_error() {
   switch( errno ) {
-      case ( ( EACCES ) || ( EPERM ) ): return ecl::Error(ecl::PermissionsError);
+      case ( EACCES )      :
+      case ( EPERM )       : return ecl::Error(ecl::PermissionsError);
       case ( EADDRINUSE )  : return ecl::Error(ecl::BusyError);
       case ( EAFNOSUPPORT ): return ecl::Error(ecl::NotSupportedError);
       case ( EAGAIN )      : return ecl::Error(ecl::OutOfResourcesError);
diff --git a/ecl_devices/src/lib/detail/socket_exception_handler_pos.cpp b/ecl_devices/src/lib/detail/socket_exception_handler_pos.cpp
index 283291a..7061718 100644
--- a/ecl_devices/src/lib/detail/socket_exception_handler_pos.cpp
+++ b/ecl_devices/src/lib/detail/socket_exception_handler_pos.cpp
@@ -99,7 +99,7 @@ StandardException accept_exception(const char* loc) {
 StandardException receive_exception(const char* loc) {
 
     switch( errno ) {
-		case ( EAGAIN || EWOULDBLOCK ) : return StandardException(LOC,InterruptedError,"Unable to read the socket. Probably a timeout occured.");
+		case ( EWOULDBLOCK ) : return StandardException(LOC,InterruptedError,"Unable to read the socket. Probably a timeout occured.");
 		case ( EBADF       ) : return StandardException(LOC,InvalidObjectError,"Unable to read the socket. Bad file descriptor.");
 		case ( ECONNREFUSED) : return StandardException(LOC,ConnectionError,"Unable to read the socket. Remote host refused the connection (probably not running).");
 		case ( EFAULT      ) : return StandardException(LOC,SystemFailureError,"Unable to read the socket. Receive buffer has an address problem.");
@@ -119,7 +119,6 @@ StandardException receive_exception(const char* loc) {
 StandardException send_exception(const char* loc) {
 
 	switch( errno ) {
-		case ( EAGAIN || EWOULDBLOCK ) : return StandardException(LOC,BlockingError,"Unable to write to the socket. Socket is configured as non-blocking and this would block.");
 		case ( EWOULDBLOCK ) : return StandardException(LOC,BlockingError,"Unable to write to the socket. Socket is configured as non-blocking and this would block.");
 		case ( EACCES      ) : return StandardException(LOC,PermissionsError,"Unable to write to the socket. Permission to write is denied.");
 		case ( EBADF       ) : return StandardException(LOC,InvalidObjectError,"Unable to write to the socket. Bad file descriptor.");
@@ -179,7 +178,8 @@ StandardException gethostbyname_exception(const char* loc, const std::string& ho
 
 StandardException connection_exception(const char* loc) {
     switch( errno ) {
-        case ( ( EACCES ) || ( EPERM ) ): return StandardException(LOC,PermissionsError,"Write permission on the socket denied or firewalled.");
+        case ( EACCES )      :
+        case ( EPERM )       : return StandardException(LOC,PermissionsError,"Write permission on the socket denied or firewalled.");
         case ( EADDRINUSE )  : return StandardException(LOC,BusyError,"Address already in use.");
         case ( EAFNOSUPPORT ): return StandardException(LOC,NotSupportedError,"Incorrect address family used (no support for AF maybe?");
         case ( EAGAIN )      : return StandardException(LOC,OutOfResourcesError,"No free local ports remaining.");
diff --git a/ecl_devices/src/lib/socket_client_pos.cpp b/ecl_devices/src/lib/socket_client_pos.cpp
index a05e5f3..64d5593 100644
--- a/ecl_devices/src/lib/socket_client_pos.cpp
+++ b/ecl_devices/src/lib/socket_client_pos.cpp
@@ -237,6 +237,7 @@ long SocketClient::write(const char *s, unsigned long n) {
             }
         }
     }
+    error_handler = NoError;
     return bytes_written;
 }
 
-- 
2.43.0


From 7cfc1af0d9ff33c244ec267ff42d7a2fb21f705e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:59 +0000
Subject: [PATCH 086/129] fix: devices: a serial port starts out closed, closes
 its own descriptor only, and closes it when it could not be opened

---
 ecl_devices/include/ecl/devices/serial_pos.hpp |  6 +++++-
 ecl_devices/src/lib/serial_pos.cpp             | 17 ++++++++++++++---
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/ecl_devices/include/ecl/devices/serial_pos.hpp b/ecl_devices/include/ecl/devices/serial_pos.hpp
index a3c0dd5..a98664a 100644
--- a/ecl_devices/include/ecl/devices/serial_pos.hpp
+++ b/ecl_devices/include/ecl/devices/serial_pos.hpp
@@ -141,7 +141,7 @@ namespace ecl
      * constructors. Use this with the open() command to do so. You can
      * check for open status with via the open accessor.
      */
-    Serial() : is_open(false), error_handler(NoError)
+    Serial() : file_descriptor(-1), options(), read_timeout_ms(5000), fake_loop_count(0), is_open(false), error_handler(NoError)
     {};
     /**
      * @brief Constructs and opens the connection, RAII style.
@@ -380,6 +380,10 @@ namespace ecl
     enum {
       NonBlocking = -1
     };
+    /*********************
+     ** Utilities
+     **********************/
+    void closeDescriptor();
     /*********************
      ** Variables
      **********************/
diff --git a/ecl_devices/src/lib/serial_pos.cpp b/ecl_devices/src/lib/serial_pos.cpp
index 1103b6f..8297a6c 100644
--- a/ecl_devices/src/lib/serial_pos.cpp
+++ b/ecl_devices/src/lib/serial_pos.cpp
@@ -68,7 +68,7 @@ using ecl::StandardException;
 
 Serial::Serial(const std::string& port_name, const BaudRate &baud_rate, const DataBits &data_bits,
                const StopBits &stop_bits, const Parity &parity) :
-    port(port_name), read_timeout_ms(5000), error_handler(NoError)
+    file_descriptor(-1), options(), port(port_name), read_timeout_ms(5000), fake_loop_count(0), is_open(false), error_handler(NoError)
 {
   ecl_try
   {
@@ -96,6 +96,7 @@ bool Serial::open(const std::string& port_name, const BaudRate &baud_rate, const
    **********************/
   if (stop_bits == StopBits_15)
   {
+    close();
     ecl_throw(
         StandardException(LOC,ConfigurationError,"Standard serial device does not accept StopBits_15 as valid (used in ftdi)."));
     error_handler = InvalidArgError;
@@ -124,6 +125,7 @@ bool Serial::open(const std::string& port_name, const BaudRate &baud_rate, const
                                         B230400, B460800, B921600};
   if (baud_rate >= (sizeof(baud_rate_flags) / sizeof(B110)))
   {
+    closeDescriptor();
     ecl_throw(StandardException(LOC,ConfigurationError,"Selected baudrate is not supported."));
     error_handler = InvalidArgError;
     is_open = false;
@@ -152,8 +154,10 @@ bool Serial::open(const std::string& port_name, const BaudRate &baud_rate, const
   file_lock.l_pid = getpid();
   if (fcntl(file_descriptor, F_SETLK, &file_lock) != 0)
   {
+    const int lock_errno = errno;
+    closeDescriptor();
     ecl_throw(
-        StandardException(LOC,OpenError,std::string("Device is already locked. Try 'lsof | grep ") + port + std::string("' to find other processes that currently have the port open (if the device is a symbolic link you may need to replace the device name with the device that it is pointing to) [posix error in case it is something else: " + std::to_string(errno))));
+        StandardException(LOC,OpenError,std::string("Device is already locked. Try 'lsof | grep ") + port + std::string("' to find other processes that currently have the port open (if the device is a symbolic link you may need to replace the device name with the device that it is pointing to) [posix error in case it is something else: " + std::to_string(lock_errno))));
     error_handler = IsLockedError;
     is_open = false;
     return false;
@@ -172,6 +176,7 @@ bool Serial::open(const std::string& port_name, const BaudRate &baud_rate, const
    **********************/
   if (cfsetspeed(&options, baud_rate_flags[baud_rate]) < 0)
   {
+    closeDescriptor();
     ecl_throw(StandardException(LOC,ConfigurationError,"Setting speed failed."));
     error_handler = InvalidArgError;
     is_open = false;
@@ -281,11 +286,17 @@ void Serial::close()
   if (is_open)
   {
     // should check return values here, it does have some, EBADF/EINTR/EIO
-    ::close(file_descriptor);
+    closeDescriptor();
     is_open = false;
   }
 }
 
+void Serial::closeDescriptor()
+{
+  ::close(file_descriptor);
+  file_descriptor = -1;
+}
+
 bool Serial::open()
 {
   if ( is_open ) {
-- 
2.43.0


From 7bb642af6a4d8ce0ded001787df4af0d6373eba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:59 +0000
Subject: [PATCH 087/129] fix: devices: long, odd and zero serial timeouts are
 kept as well as the terminal can

---
 ecl_devices/include/ecl/devices/serial_pos.hpp | 2 +-
 ecl_devices/src/lib/serial_pos.cpp             | 9 ++++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/ecl_devices/include/ecl/devices/serial_pos.hpp b/ecl_devices/include/ecl/devices/serial_pos.hpp
index a98664a..bcc320a 100644
--- a/ecl_devices/include/ecl/devices/serial_pos.hpp
+++ b/ecl_devices/include/ecl/devices/serial_pos.hpp
@@ -453,7 +453,7 @@ namespace ecl
       error_handler = OpenError;
       return -1;
     }
-    ssize_t no_read;
+    ssize_t no_read = 0;
     if ( ( read_timeout_ms != NonBlocking ) && ( read_timeout_ms < 100 ) )
     {
       fake_snooze.initialise();
diff --git a/ecl_devices/src/lib/serial_pos.cpp b/ecl_devices/src/lib/serial_pos.cpp
index 8297a6c..b41fa94 100644
--- a/ecl_devices/src/lib/serial_pos.cpp
+++ b/ecl_devices/src/lib/serial_pos.cpp
@@ -313,6 +313,11 @@ bool Serial::open()
 
 void Serial::block(const unsigned long &timeout)
 {
+  if (timeout == 0)
+  {
+    unblock();
+    return;
+  }
   if (timeout < 100)
   {
     if (timeout < 5)
@@ -358,7 +363,9 @@ void Serial::block(const unsigned long &timeout)
     }
     else
     {
-      options.c_cc[VTIME] = static_cast<unsigned char>(timeout / 100);
+      // rounded up and no more than it can hold
+      const unsigned long tenths = (timeout > 25500) ? 255 : (timeout + 99) / 100;
+      options.c_cc[VTIME] = static_cast<unsigned char>(tenths);
     }
     tcsetattr(file_descriptor, TCSAFLUSH, &options);
   }
-- 
2.43.0


From 5c60c6d9aa1800c9e054b34f1e3998921d6fd0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:59 +0000
Subject: [PATCH 088/129] fix: devices: switching how a serial port reads does
 not throw away what was received

---
 ecl_devices/src/lib/serial_pos.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecl_devices/src/lib/serial_pos.cpp b/ecl_devices/src/lib/serial_pos.cpp
index b41fa94..9496aa8 100644
--- a/ecl_devices/src/lib/serial_pos.cpp
+++ b/ecl_devices/src/lib/serial_pos.cpp
@@ -367,7 +367,7 @@ void Serial::block(const unsigned long &timeout)
       const unsigned long tenths = (timeout > 25500) ? 255 : (timeout + 99) / 100;
       options.c_cc[VTIME] = static_cast<unsigned char>(tenths);
     }
-    tcsetattr(file_descriptor, TCSAFLUSH, &options);
+    tcsetattr(file_descriptor, TCSANOW, &options);
   }
   read_timeout_ms = timeout;
 }
@@ -376,7 +376,7 @@ void Serial::unblock()
 {
   options.c_cc[VMIN] = 0;
   options.c_cc[VTIME] = 0;
-  tcsetattr(file_descriptor, TCSAFLUSH, &options);
+  tcsetattr(file_descriptor, TCSANOW, &options);
   read_timeout_ms = NonBlocking;
 }
 
-- 
2.43.0


From dd1430243b5d52aeebd8705a650b55e8ab250930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:59 +0000
Subject: [PATCH 089/129] fix: devices: parity checking leaves the eighth data
 bit of serial ports alone

---
 ecl_devices/src/lib/serial_pos.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ecl_devices/src/lib/serial_pos.cpp b/ecl_devices/src/lib/serial_pos.cpp
index 9496aa8..0752cba 100644
--- a/ecl_devices/src/lib/serial_pos.cpp
+++ b/ecl_devices/src/lib/serial_pos.cpp
@@ -246,13 +246,21 @@ bool Serial::open(const std::string& port_name, const BaudRate &baud_rate, const
   }
   else if (parity == EvenParity)
   {
-    options.c_iflag |= (INPCK | ISTRIP); // Enable parity check and strip parity bit
+    options.c_iflag |= INPCK; // Enable parity check
+    if (data_bits != DataBits_8)
+    {
+      options.c_iflag |= ISTRIP; // Strip parity bit
+    }
     options.c_cflag |= PARENB;
     options.c_cflag &= ~PARODD;
   }
   else
   { // OddParity
-    options.c_iflag |= (INPCK | ISTRIP); // Enable parity check and strip parity bit
+    options.c_iflag |= INPCK; // Enable parity check
+    if (data_bits != DataBits_8)
+    {
+      options.c_iflag |= ISTRIP; // Strip parity bit
+    }
     options.c_cflag |= PARENB;
     options.c_cflag |= PARODD;
   }
-- 
2.43.0


From 236b2f426458c146ad88859ee8a5f2b35236b394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:06 +0000
Subject: [PATCH 090/129] fix: geometry: roots of a cubic without a cubic term
 are those of the quadratic, not NaN

---
 ecl_geometry/src/lib/polynomial.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ecl_geometry/src/lib/polynomial.cpp b/ecl_geometry/src/lib/polynomial.cpp
index bc64d2e..1530595 100644
--- a/ecl_geometry/src/lib/polynomial.cpp
+++ b/ecl_geometry/src/lib/polynomial.cpp
@@ -97,6 +97,11 @@ Array<double> Roots< CubicPolynomial >::operator()(const CubicPolynomial& polyno
 	double c = polynomial.coefficients()[1];
 	double d = polynomial.coefficients()[0];
 
+	if ( a == 0 ) { // not a cubic at all, the divisions below would be by zero
+		QuadraticPolynomial quadratic;
+		quadratic.coefficients() << d, c, b;
+		return Roots<QuadraticPolynomial>()(quadratic);
+	}
 //	form the companion matrix (http://stackoverflow.com/questions/2003465/fastest-numerical-solution-of-a-real-cubic-polynomial)
 //	ecl::linear_algebra::Matrix3d A;
 //	A << 0, 0, -d/a, 1, 0, -c/a, 0, 1, -b/a;
-- 
2.43.0


From 59a2ac83772f6fa27bae1cc55299af375cecf00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:06 +0000
Subject: [PATCH 091/129] fix: geometry: symmetric cubics with a single real
 root have a single root, not two NaN besides

---
 ecl_geometry/src/lib/polynomial.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ecl_geometry/src/lib/polynomial.cpp b/ecl_geometry/src/lib/polynomial.cpp
index 1530595..db2d6ba 100644
--- a/ecl_geometry/src/lib/polynomial.cpp
+++ b/ecl_geometry/src/lib/polynomial.cpp
@@ -127,7 +127,11 @@ Array<double> Roots< CubicPolynomial >::operator()(const CubicPolynomial& polyno
 //		std::cout << "Single root from cube root function" << std::endl;
 		intercepts.resize(1);
 		intercepts << ecl::cube_root(-q)+ shift;
-	} else if ( q == 0 ) {
+	} else if ( ( q == 0 ) && ( p > 0 ) ) {
+		// single root at t = 0, the other two are complex
+		intercepts.resize(1);
+		intercepts << shift;
+	} else if ( q == 0 ) { // && ( p < 0 )
 //		std::cout << "Three real roots" << std::endl;
 		// three real roots
 		intercepts.resize(3);
-- 
2.43.0


From cbdca0ffffc9bf422227065f1fd7426c9df4ece5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:06 +0000
Subject: [PATCH 092/129] fix: geometry: roots of cubics next to a double root
 are not NaN

---
 ecl_geometry/src/lib/polynomial.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ecl_geometry/src/lib/polynomial.cpp b/ecl_geometry/src/lib/polynomial.cpp
index db2d6ba..9197ca0 100644
--- a/ecl_geometry/src/lib/polynomial.cpp
+++ b/ecl_geometry/src/lib/polynomial.cpp
@@ -151,9 +151,12 @@ Array<double> Roots< CubicPolynomial >::operator()(const CubicPolynomial& polyno
 		// switch to transcendental solutions (only works for three real roots)
 		// http://en.wikipedia.org/wiki/Cubic_function#Trigonometric_.28and_hyperbolic.29_method
 //		std::cout << "Discriminant: " << discriminant << std::endl;
-		double t_1 = 2.0*sqrt(-p/3.0)*cos((1.0/3.0)*acos( ((3.0*q)/(2.0*p)) * sqrt(-3.0/p)));
-		double t_2 = 2.0*sqrt(-p/3.0)*cos((1.0/3.0)*acos(( (3.0*q)/(2.0*p)) * sqrt(-3.0/p))-(2.0*ecl::pi)/3.0);
-		double t_3 = 2.0*sqrt(-p/3.0)*cos((1.0/3.0)*acos(( (3.0*q)/(2.0*p)) * sqrt(-3.0/p))-(4.0*ecl::pi)/3.0);
+		double cosine = ((3.0*q)/(2.0*p)) * sqrt(-3.0/p);
+		// close to a double root, rounding can push this just outside the domain of acos
+		if ( cosine > 1.0 ) { cosine = 1.0; } else if ( cosine < -1.0 ) { cosine = -1.0; }
+		double t_1 = 2.0*sqrt(-p/3.0)*cos((1.0/3.0)*acos(cosine));
+		double t_2 = 2.0*sqrt(-p/3.0)*cos((1.0/3.0)*acos(cosine)-(2.0*ecl::pi)/3.0);
+		double t_3 = 2.0*sqrt(-p/3.0)*cos((1.0/3.0)*acos(cosine)-(4.0*ecl::pi)/3.0);
 		intercepts.resize(3);
 		intercepts << t_1+shift, t_2+shift, t_3+shift;
 	}
-- 
2.43.0


From e8890343770e781b200c1abf2200a538e1857260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:06 +0000
Subject: [PATCH 093/129] fix: geometry: an intersection that succeeds does not
 report the failure of an earlier one

---
 ecl_geometry/src/lib/polynomial.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ecl_geometry/src/lib/polynomial.cpp b/ecl_geometry/src/lib/polynomial.cpp
index 9197ca0..512da0d 100644
--- a/ecl_geometry/src/lib/polynomial.cpp
+++ b/ecl_geometry/src/lib/polynomial.cpp
@@ -169,6 +169,7 @@ CartesianPoint2d Intersection< LinearFunction >::operator()(const LinearFunction
 	double b_0 = f.coefficients()[1];
 	double a_1 = g.coefficients()[0];
 	double b_1 = g.coefficients()[1];
+	last_operation_failed = false;
 	if ( isApprox(b_0, b_1) ) { // should use some epsilon distance here.
 		last_operation_failed = true;
 		ecl_throw(StandardException(LOC,OutOfRangeError,"Functions are collinear, no intersection possible."));
-- 
2.43.0


From 80960af4d8ee01bdb7d12cbbaef138b11bcdf7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:06 +0000
Subject: [PATCH 094/129] fix: geometry: roots and extrema survive a very small
 leading coefficient

---
 ecl_geometry/src/lib/polynomial.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/ecl_geometry/src/lib/polynomial.cpp b/ecl_geometry/src/lib/polynomial.cpp
index 512da0d..9133b7c 100644
--- a/ecl_geometry/src/lib/polynomial.cpp
+++ b/ecl_geometry/src/lib/polynomial.cpp
@@ -80,7 +80,12 @@ Array<double> Roots< QuadraticPolynomial >::operator()(const QuadraticPolynomial
 		double discriminant = b*b - 4*a*c;
 		if ( discriminant > 0.0 ) {
 			intercepts.resize(2);
-			intercepts << (-b + sqrt(discriminant))/(2*a), (-b - sqrt(discriminant))/(2*a);
+			// avoid taking the difference of b and the root of the discriminant when a is comparatively small
+			if ( b > 0 ) {
+				intercepts << (2*c)/(-b - sqrt(discriminant)), (-b - sqrt(discriminant))/(2*a);
+			} else {
+				intercepts << (-b + sqrt(discriminant))/(2*a), (2*c)/(-b + sqrt(discriminant));
+			}
 		} else if ( discriminant == 0.0 ) {
 			intercepts.resize(1);
 			intercepts << -b/(2*a);
@@ -213,14 +218,14 @@ double Maximum<CubicPolynomial>::operator()(
     } else {
 		double sqrt_term = b*b-4*a*c;
 		if ( sqrt_term > 0 ) {
-			double root = ( -b + sqrt(b*b-4*a*c))/(2*a);
+			double root = ( b > 0 ) ? (2*c)/(-b - sqrt(sqrt_term)) : (-b + sqrt(sqrt_term))/(2*a);
 			if ( ( root > x_begin ) && ( root < x_end ) ) {
 				test_max = cubic(root);
 				if ( test_max > max ) {
 					max = test_max;
 				}
 			}
-			root = ( -b - sqrt(b*b-4*a*c))/(2*a);
+			root = ( b > 0 ) ? (-b - sqrt(sqrt_term))/(2*a) : (2*c)/(-b + sqrt(sqrt_term));
 			if ( ( root > x_begin ) && ( root < x_end ) ) {
 				test_max = cubic(root);
 				if ( test_max > max ) {
@@ -265,14 +270,14 @@ double Minimum<CubicPolynomial>::operator()(
     } else {
 		double sqrt_term = b*b-4*a*c;
 		if ( sqrt_term > 0 ) {
-			double root = ( -b + sqrt(b*b-4*a*c))/(2*a);
+			double root = ( b > 0 ) ? (2*c)/(-b - sqrt(sqrt_term)) : (-b + sqrt(sqrt_term))/(2*a);
 			if ( ( root > x_begin ) && ( root < x_end ) ) {
 				test_min = cubic(root);
 				if ( test_min < min ) {
 					min = test_min;
 				}
 			}
-			root = ( -b - sqrt(b*b-4*a*c))/(2*a);
+			root = ( b > 0 ) ? (-b - sqrt(sqrt_term))/(2*a) : (2*c)/(-b + sqrt(sqrt_term));
 			if ( ( root > x_begin ) && ( root < x_end ) ) {
 				test_min = cubic(root);
 				if ( test_min < min ) {
-- 
2.43.0


From 3d5e7bf2b3591113d861a331bbc722168f18d837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:11 +0000
Subject: [PATCH 095/129] fix: geometry: the single root of a cubic is accurate
 when the cubic is almost a shifted cube

---
 ecl_geometry/src/lib/polynomial.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ecl_geometry/src/lib/polynomial.cpp b/ecl_geometry/src/lib/polynomial.cpp
index 9133b7c..ff0883a 100644
--- a/ecl_geometry/src/lib/polynomial.cpp
+++ b/ecl_geometry/src/lib/polynomial.cpp
@@ -148,8 +148,9 @@ Array<double> Roots< CubicPolynomial >::operator()(const CubicPolynomial& polyno
 		intercepts << 3*q/p + shift, (-3*q)/(2*p) + shift;
 	} else if ( discriminant >= 0 ) {
 //		std::cout << "Discriminant: " << discriminant << std::endl;
-		double u = ecl::cube_root(-q/2 + sqrt(discriminant));
-		double v = ecl::cube_root(-q/2 - sqrt(discriminant));
+		// u and v are the cube roots of -q/2 +- sqrt(discriminant), but the difference is all rounding when p is small (u*v = -p/3)
+		double u = ecl::cube_root( ( q > 0 ) ? -q/2 - sqrt(discriminant) : -q/2 + sqrt(discriminant));
+		double v = -p/(3*u);
 		intercepts.resize(1);
 		intercepts << u + v + shift;
 	} else { // discriminant < 0 this is cardano's casus irreducibilis and there is three real roots
-- 
2.43.0


From c53926a7d221eb98c8823f02b748424f7a253c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:28 +0000
Subject: [PATCH 096/129] fix: geometry: heuristic cubic splines refuse fewer
 than two points as the other cubic splines do

---
 ecl_geometry/src/lib/cubic_spline_blueprints.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ecl_geometry/src/lib/cubic_spline_blueprints.cpp b/ecl_geometry/src/lib/cubic_spline_blueprints.cpp
index 19c6b04..b947334 100644
--- a/ecl_geometry/src/lib/cubic_spline_blueprints.cpp
+++ b/ecl_geometry/src/lib/cubic_spline_blueprints.cpp
@@ -143,6 +143,10 @@ DerivativeHeuristicCubicSpline::DerivativeHeuristicCubicSpline(const ecl::Array<
         x_data(x_set),
         y_data(y_set)
 {
+    if (x_data.size() < 2 || y_data.size() < 2)
+    {
+      ecl_throw(StandardException(LOC,OutOfRangeError) );
+    }
     ecl_assert_throw( x_data.size() == y_data.size(), StandardException(LOC,OutOfRangeError) );
     /*********************
     ** Via Velocities
-- 
2.43.0


From ed8f59ebcf65c8e541878a5294de284487eb04f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:28 +0000
Subject: [PATCH 097/129] fix: geometry: tension splines refuse fewer than two
 points and join two without reaching outside memory

---
 ecl_geometry/src/lib/tension_spline_blueprints.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ecl_geometry/src/lib/tension_spline_blueprints.cpp b/ecl_geometry/src/lib/tension_spline_blueprints.cpp
index ed11de8..41aa797 100644
--- a/ecl_geometry/src/lib/tension_spline_blueprints.cpp
+++ b/ecl_geometry/src/lib/tension_spline_blueprints.cpp
@@ -43,6 +43,10 @@ C2TensionSpline::C2TensionSpline(const ecl::Array<double>& x_set, const ecl::Arr
     x_data(x_set),
     y_data(y_set)
 {
+    if (x_data.size() < 2 || y_data.size() < 2)
+    {
+      ecl_throw(StandardException(LOC,OutOfRangeError) );
+    }
     ecl_assert_throw( x_data.size() == y_data.size(), StandardException(LOC,OutOfRangeError) );
 
     /*********************
@@ -79,8 +83,10 @@ C2TensionSpline::C2TensionSpline(const ecl::Array<double>& x_set, const ecl::Arr
      *
      * etc
      */
-    u[1] = beta[1] + beta[0];
-    v[1] = gamma[1]-gamma[0];
+    if ( n > 1 ) { // with just the two end points there is nothing to solve for
+        u[1] = beta[1] + beta[0];
+        v[1] = gamma[1]-gamma[0];
+    }
     for ( unsigned int i = 2; i < n; ++i ) {
         u[i] = beta[i] + beta[i-1] - a[i-1]*a[i-1]/u[i-1];
         v[i] = gamma[i]-gamma[i-1] - a[i-1]*v[i-1]/u[i-1];
-- 
2.43.0


From ef575b70509dece00d3068182c53fb268c12cac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:28 +0000
Subject: [PATCH 098/129] fix: geometry: smooth linear splines refuse fewer
 than two points

---
 ecl_geometry/src/lib/smooth_linear_spline.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ecl_geometry/src/lib/smooth_linear_spline.cpp b/ecl_geometry/src/lib/smooth_linear_spline.cpp
index fec1839..8fe78ed 100644
--- a/ecl_geometry/src/lib/smooth_linear_spline.cpp
+++ b/ecl_geometry/src/lib/smooth_linear_spline.cpp
@@ -33,6 +33,10 @@ SmoothLinearSpline::SmoothLinearSpline(const Array<double>& x_data, const Array<
 		throw DataException<int>(LOC,OutOfRangeError,"Input domain and range sets were not the same size.", 0);
 	}
 
+	if ( x_data.size() < 2 ) {
+		throw DataException<int>(LOC,OutOfRangeError,"At least two points are needed to build a spline.", 0);
+	}
+
     /*********************
     ** Basic Parameters
     **********************/
-- 
2.43.0


From 65a07126a6df2f7b08ac090b2415a8efa620e4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:28 +0000
Subject: [PATCH 099/129] fix: geometry: tension splines under high tension are
 not NaN

---
 ecl_geometry/src/lib/tension_function.cpp     | 31 +++++++++++++++++--
 .../src/lib/tension_spline_blueprints.cpp     |  2 +-
 2 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/ecl_geometry/src/lib/tension_function.cpp b/ecl_geometry/src/lib/tension_function.cpp
index 136213d..7384836 100644
--- a/ecl_geometry/src/lib/tension_function.cpp
+++ b/ecl_geometry/src/lib/tension_function.cpp
@@ -19,6 +19,31 @@
 
 namespace ecl {
 
+/*****************************************************************************
+** Utilities
+*****************************************************************************/
+
+namespace {
+
+/*
+ * sinh(a)/sinh(b) and cosh(a)/sinh(b), also when these are too large to be represented.
+ */
+double sinh_ratio(const double &a, const double &b) {
+    if ( fabs(b) < 300.0 ) {
+        return sinh(a)/sinh(b);
+    }
+    return ( ( a < 0 ) == ( b < 0 ) ? 1.0 : -1.0 )*exp(fabs(a)-fabs(b));
+}
+
+double cosh_ratio(const double &a, const double &b) {
+    if ( fabs(b) < 300.0 ) {
+        return cosh(a)/sinh(b);
+    }
+    return ( b < 0 ? -1.0 : 1.0 )*exp(fabs(a)-fabs(b));
+}
+
+} // namespace
+
 /*****************************************************************************
 ** Implementation [TensionFunction]
 *****************************************************************************/
@@ -26,7 +51,7 @@ namespace ecl {
 double TensionFunction::derivative(const double &tau, const double &x) const {
     double value;
     double h = x_f-x_0;
-    value = (-1.0*tau*z_0*cosh(tau*(x_f-x)) + tau*z_f*cosh(tau*(x-x_0)))/(tau*tau*sinh(tau*h));
+    value = (-1.0*tau*z_0*cosh_ratio(tau*(x_f-x),tau*h) + tau*z_f*cosh_ratio(tau*(x-x_0),tau*h))/(tau*tau);
     value += -1.0*(y_0-z_0/(tau*tau))/h;
     value += (y_f-z_f/(tau*tau))/h;
 
@@ -37,7 +62,7 @@ double TensionFunction::derivative(const double &tau, const double &x) const {
 double TensionFunction::dderivative(const double &tau, const double &x) const {
     double value;
     double h = x_f-x_0;
-    value = (tau*tau*z_0*sinh(tau*(x_f-x)) + tau*tau*z_f*sinh(tau*(x-x_0)))/(tau*tau*sinh(tau*h));
+    value = z_0*sinh_ratio(tau*(x_f-x),tau*h) + z_f*sinh_ratio(tau*(x-x_0),tau*h);
 
     return value;
 }
@@ -45,7 +70,7 @@ double TensionFunction::dderivative(const double &tau, const double &x) const {
 double TensionFunction::operator ()(const double &tau, const double &x) const {
     double value;
     double h = x_f-x_0;
-    value = (z_0*sinh(tau*(x_f-x)) + z_f*sinh(tau*(x-x_0)))/(tau*tau*sinh(tau*h));
+    value = (z_0*sinh_ratio(tau*(x_f-x),tau*h) + z_f*sinh_ratio(tau*(x-x_0),tau*h))/(tau*tau);
     value += (y_0-z_0/(tau*tau))*(x_f-x)/h;
     value += (y_f-z_f/(tau*tau))*(x-x_0)/h;
     return value;
diff --git a/ecl_geometry/src/lib/tension_spline_blueprints.cpp b/ecl_geometry/src/lib/tension_spline_blueprints.cpp
index 41aa797..140bff4 100644
--- a/ecl_geometry/src/lib/tension_spline_blueprints.cpp
+++ b/ecl_geometry/src/lib/tension_spline_blueprints.cpp
@@ -68,7 +68,7 @@ C2TensionSpline::C2TensionSpline(const ecl::Array<double>& x_set, const ecl::Arr
     for ( unsigned int i = 0; i < n; ++i ) {
         h[i] = x_set[i+1]-x_set[i];
         a[i] = 1/h[i] - tension/sinh(tension*h[i]);
-        beta[i] = tension*(cosh(tension*h[i])/sinh(tension*h[i])) - 1/h[i];
+        beta[i] = tension/tanh(tension*h[i]) - 1/h[i];
         gamma[i] = tension*tension*(y_data[i+1]-y_data[i])/h[i];
     }
     /*
-- 
2.43.0


From d0f4f0b00fb9896fc5a1dd4f2d0c207056e8ea4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:25 +0000
Subject: [PATCH 100/129] fix: geometry: default constructed Pose2D and the
 product of two Pose2D compile

---
 ecl_geometry/include/ecl/geometry/pose2d.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecl_geometry/include/ecl/geometry/pose2d.hpp b/ecl_geometry/include/ecl/geometry/pose2d.hpp
index dd4544c..c3af2b4 100644
--- a/ecl_geometry/include/ecl/geometry/pose2d.hpp
+++ b/ecl_geometry/include/ecl/geometry/pose2d.hpp
@@ -120,7 +120,7 @@ public:
    *
    * @param xyh: x, y, heading wrapped in an eigen vector3d type.
    */
-  Pose2D(): xyh(0.0) {}
+  Pose2D(): xyh(XYH::Zero()) {}
 
   /**
    * @brief Construction by element.
@@ -152,7 +152,7 @@ public:
    * @return Pose2D<Float> : the concatenated pose
    */
   Pose2D<Float> operator*(const Pose2D<Float> &pose) const {
-    return concatenate_poses(this->xyh, pose);
+    return concatenate_poses(this->xyh, pose.xyh);
   }
 
   /**
-- 
2.43.0


From 71f48c1923cad9fa753f1f52d577cd89080d590e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:25 +0000
Subject: [PATCH 101/129] fix: geometry: Pose2D<double> keeps the precision of
 the elements it is built from

---
 ecl_geometry/include/ecl/geometry/pose2d.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_geometry/include/ecl/geometry/pose2d.hpp b/ecl_geometry/include/ecl/geometry/pose2d.hpp
index c3af2b4..08c5499 100644
--- a/ecl_geometry/include/ecl/geometry/pose2d.hpp
+++ b/ecl_geometry/include/ecl/geometry/pose2d.hpp
@@ -129,7 +129,7 @@ public:
    * @param y: y-translation
    * @param h: heading (radians)
    */
-  Pose2D(const float& x, const float& y, const float& h) {
+  Pose2D(const Float& x, const Float& y, const Float& h) {
     xyh << x, y, h;
   }
 
-- 
2.43.0


From 1eafb81c982c958bbbcf51e4a1df1b66b2fa4820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:25 +0000
Subject: [PATCH 102/129] fix: geometry: Pose2D does not hand out references to
 temporaries

---
 ecl_geometry/include/ecl/geometry/pose2d.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecl_geometry/include/ecl/geometry/pose2d.hpp b/ecl_geometry/include/ecl/geometry/pose2d.hpp
index 08c5499..7e65896 100644
--- a/ecl_geometry/include/ecl/geometry/pose2d.hpp
+++ b/ecl_geometry/include/ecl/geometry/pose2d.hpp
@@ -175,11 +175,11 @@ public:
   const Float& x() const { return xyh[0]; }        //!< @brief Get the x-coordinate.
   const Float& y() const { return xyh[1]; }        //!< @brief Get the y-coordinate.
   const Float& heading() const { return xyh[2]; }  //!< @brief Get the heading.
-  const Translation& translation() const { return xyh. template head<2>(); }
+  Translation translation() const { return xyh. template head<2>(); }
   /**
    * @brief Representation of the heading in matrix form.
    **/
-  const RotationMatrix& rotationMatrix() const {
+  RotationMatrix rotationMatrix() const {
     Float c = std::cos(xyh[2]);
     Float s = std::sin(xyh[2]);
     return (RotationMatrix() << c, -s, s, c).finished();
-- 
2.43.0


From e3ab33ddb3ca1a8dcbbe888e10f04795f322a4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:25 +0000
Subject: [PATCH 103/129] fix: geometry: a pose can be extended by itself

---
 ecl_geometry/include/ecl/geometry/pose2d.hpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/ecl_geometry/include/ecl/geometry/pose2d.hpp b/ecl_geometry/include/ecl/geometry/pose2d.hpp
index 7e65896..dc6a4e9 100644
--- a/ecl_geometry/include/ecl/geometry/pose2d.hpp
+++ b/ecl_geometry/include/ecl/geometry/pose2d.hpp
@@ -80,12 +80,8 @@ void extend_pose(
   typename enable_if<ecl::is_float<Float> >::type* dummy = 0)
 {
   (void) dummy;
-  Float c = std::cos(pose[2]);
-  Float s = std::sin(pose[2]);
-  pose <<
-    pose[0] + c*extending_pose[0] - s*extending_pose[1],
-    pose[1] + s*extending_pose[0] + c*extending_pose[1],
-    wrap_angle(pose[2] + extending_pose[2]);
+  // the extending pose may be the pose itself, so read it all before writing
+  pose = concatenate_poses(pose, extending_pose);
 }
 
 /*****************************************************************************
-- 
2.43.0


From e1634a4f6c0f5b97265e60680b2d732a1c47922c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:38 +0000
Subject: [PATCH 104/129] fix: geometry: 2d poses of different storage types
 can be multiplied

---
 ecl_geometry/include/ecl/geometry/legacy_pose2d.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecl_geometry/include/ecl/geometry/legacy_pose2d.hpp b/ecl_geometry/include/ecl/geometry/legacy_pose2d.hpp
index eb93e3b..79688ee 100644
--- a/ecl_geometry/include/ecl/geometry/legacy_pose2d.hpp
+++ b/ecl_geometry/include/ecl/geometry/legacy_pose2d.hpp
@@ -137,7 +137,7 @@ public:
         static Angle<Float> Rotation(const RotationMatrixType &rotation) { return Pose2DMath<Float,RotationMatrixStorage>::Heading(rotation); } /**< @brief Arbitrary rotation converter. **/
         static Angle<Float> Heading(const Angle<Float> &angle) { return angle; }  /**< @brief Arbitrary heading angle converter. **/
         static Angle<Float> Product(const Angle<Float> &angle1, const Angle<Float> &angle2) { return angle1+angle2; } /**< @brief Overloaded product calculater for poses. **/
-        static Angle<Float> Product(const Angle<Float> &angle, RotationMatrixType &rotation) { return angle + Angle<Float>(rotation); } /**< @brief Overloaded product calculater for poses. **/
+        static Angle<Float> Product(const Angle<Float> &angle, const RotationMatrixType &rotation) { return angle + Angle<Float>(rotation); } /**< @brief Overloaded product calculater for poses. **/
         static Angle<Float> Inverse(const Angle<Float> &angle) { return Angle<Float>(-1*angle); } /**< @brief Pose inverse, angle format. **/
 };
 
@@ -412,7 +412,7 @@ public:
      */
         template <enum Pose2DStorageType Storage_>
     LegacyPose2D<Float,Storage> operator*(const LegacyPose2D<Float,Storage_> &pose) const {
-                return LegacyPose2D<Float,Storage>(RotationMath::Product(rot,pose.rot),trans + rotationMatrix()*pose.trans);
+                return LegacyPose2D<Float,Storage>(RotationMath::Product(rot,pose.rotation()),trans + rotationMatrix()*pose.translation());
     }
     /**
      * @brief Transform this pose by the specified input pose.
-- 
2.43.0


From 077eba96df78871fba60b358c199943cfdf16e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:38 +0000
Subject: [PATCH 105/129] fix: geometry: 2d poses with angle storage can be
 multiplied in place

---
 ecl_geometry/include/ecl/geometry/legacy_pose2d.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ecl_geometry/include/ecl/geometry/legacy_pose2d.hpp b/ecl_geometry/include/ecl/geometry/legacy_pose2d.hpp
index 79688ee..cf4cb93 100644
--- a/ecl_geometry/include/ecl/geometry/legacy_pose2d.hpp
+++ b/ecl_geometry/include/ecl/geometry/legacy_pose2d.hpp
@@ -419,7 +419,8 @@ public:
      * @param pose : a pose differential (wrt this pose's frame).
      * @return Pose2D<Float>& : handle to the updated pose (wrt common/global frame).
      */
-    LegacyPose2D<Float>& operator*=(const LegacyPose2D<Float> &pose) {
+    template <enum Pose2DStorageType Storage_>
+    LegacyPose2D<Float,Storage>& operator*=(const LegacyPose2D<Float,Storage_> &pose) {
         // This probably needs checking...could also be (marginally) sped up.
         *this = (*this)*pose;
         return (*this);
-- 
2.43.0


From 72b1523c9a36d84f5af2061998125451b414a0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:52 +0000
Subject: [PATCH 106/129] fix: geometry: odometry trajectories that are not
 empty can be added to

---
 ecl_geometry/src/lib/odometry_helper.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ecl_geometry/src/lib/odometry_helper.cpp b/ecl_geometry/src/lib/odometry_helper.cpp
index 25e39c4..02ba7f8 100644
--- a/ecl_geometry/src/lib/odometry_helper.cpp
+++ b/ecl_geometry/src/lib/odometry_helper.cpp
@@ -108,7 +108,10 @@ void addAtEnd(Trajectory2D& target, const Trajectory2D& addition)
     return;
   }
 
-  target << addition;
+  Trajectory2D combined(target.rows(), target.cols() + addition.cols());
+  combined.leftCols(target.cols()) = target;
+  combined.rightCols(addition.cols()) = addition;
+  target = combined;
 }
 
 void addAtEnd(Odom2DTrajectory& target, const Odom2DTrajectory& addition)
@@ -119,7 +122,10 @@ void addAtEnd(Odom2DTrajectory& target, const Odom2DTrajectory& addition)
     return;
   }
 
-  target << addition;
+  Odom2DTrajectory combined(target.rows(), target.cols() + addition.cols());
+  combined.leftCols(target.cols()) = target;
+  combined.rightCols(addition.cols()) = addition;
+  target = combined;
 }
 
 Trajectory2D vectorToTrajectory(const std::vector<Pose2D>& vec)
-- 
2.43.0


From 351842ed84c08d19449035d5fd52a844c3cbd83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:52 +0000
Subject: [PATCH 107/129] fix: geometry: 3d poses are built from the angle axis
 and translation they are given

---
 ecl_geometry/include/ecl/geometry/legacy_pose3d.hpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/ecl_geometry/include/ecl/geometry/legacy_pose3d.hpp b/ecl_geometry/include/ecl/geometry/legacy_pose3d.hpp
index 6a1851f..bc9670d 100644
--- a/ecl_geometry/include/ecl/geometry/legacy_pose3d.hpp
+++ b/ecl_geometry/include/ecl/geometry/legacy_pose3d.hpp
@@ -121,13 +121,9 @@ public:
          */
         template<typename Trans>
         LegacyPose3D(const ecl::linear_algebra::AngleAxis<Float>& angle_axis, const ecl::linear_algebra::MatrixBase<Trans>& translation) :
-            rot(RotationMatrix::Identity()),
-            trans(Translation::Zero())
-        {
-                (void) angle_axis;
-                (void) translation;
-                /* TODO */
-        }
+            rot(angle_axis.toRotationMatrix()),
+            trans(translation)
+        {}
         /**
          * @brief Initialise from an eigen Quaternion and a translation.
          *
-- 
2.43.0


From 7262cade9a9a0512e9358826a9a7c4c78004e444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:26 +0000
Subject: [PATCH 108/129] fix: statistics: the y intercept of a planar
 covariance ellipse lies on the ellipse

---
 ecl_statistics/src/lib/covariance_ellipsoid.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecl_statistics/src/lib/covariance_ellipsoid.cpp b/ecl_statistics/src/lib/covariance_ellipsoid.cpp
index 81fdf9d..b820eb0 100644
--- a/ecl_statistics/src/lib/covariance_ellipsoid.cpp
+++ b/ecl_statistics/src/lib/covariance_ellipsoid.cpp
@@ -123,7 +123,7 @@ Vector2f CovarianceEllipsoid<float,2>::intercepts() {
 	** Y Axis
 	**********************/
 	t = atan2f( (ellipse_lengths(0)/ellipse_lengths(1)), tanf(angle) ); // Could this get dodgy with tan going to infinity?
-	intercept_magnitudes(1) = fabsf(ellipse_lengths(0)*cosf(t)*sinf(angle) + ellipse_lengths(1)*sinf(t)*sinf(angle));
+	intercept_magnitudes(1) = fabsf(ellipse_lengths(0)*cosf(t)*sinf(angle) + ellipse_lengths(1)*sinf(t)*cosf(angle));
 
 	return intercept_magnitudes;
 }
@@ -219,7 +219,7 @@ Vector2d CovarianceEllipsoid<double,2>::intercepts() {
 	** Y Axis
 	**********************/
 	t = atan2( (ellipse_lengths(0)/ellipse_lengths(1)), tan(angle) ); // Could this get dodgy with tan going to infinity?
-	intercept_magnitudes(1) = fabs(ellipse_lengths(0)*cos(t)*sin(angle) + ellipse_lengths(1)*sin(t)*sin(angle));
+	intercept_magnitudes(1) = fabs(ellipse_lengths(0)*cos(t)*sin(angle) + ellipse_lengths(1)*sin(t)*cos(angle));
 
 	return intercept_magnitudes;
 }
-- 
2.43.0


From 3bd3d4400e977735e6d823de59aacd44c9735a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:57 +0000
Subject: [PATCH 109/129] fix: statistics: nearly round covariance ellipses are
 not NaN

---
 ecl_statistics/src/lib/covariance_ellipsoid.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecl_statistics/src/lib/covariance_ellipsoid.cpp b/ecl_statistics/src/lib/covariance_ellipsoid.cpp
index b820eb0..8d39a7a 100644
--- a/ecl_statistics/src/lib/covariance_ellipsoid.cpp
+++ b/ecl_statistics/src/lib/covariance_ellipsoid.cpp
@@ -55,7 +55,7 @@ void CovarianceEllipsoid<float,2>::compute(const ecl::linear_algebra::Matrix2f &
 	float c = M(1,0);
 	float d = M(1,1);
 
-	float tmp = sqrtf((a+d)*(a+d)/4 - a*d + b*c);
+	float tmp = hypotf((a-d)/2, c);
     ellipse_lengths << sqrtf((a+d)/2 + tmp), sqrtf((a+d)/2 - tmp);
 
     // CHECK: all ellipse_lengths are >= 0 (positive semi-definite check)
@@ -151,7 +151,7 @@ void CovarianceEllipsoid<double,2>::compute(const ecl::linear_algebra::Matrix2d
 	double c = M(1,0);
 	double d = M(1,1);
 
-    double tmp = sqrt((a+d)*(a+d)/4 - a*d + b*c);
+    double tmp = hypot((a-d)/2, c);
     ellipse_lengths << sqrt((a+d)/2 + tmp), sqrt((a+d)/2 - tmp);
 
     // CHECK: all ellipse_lengths are >= 0 (positive semi-definite check)
-- 
2.43.0


From 1aa3c4423987e6e8109f636b587211e515748f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:57 +0000
Subject: [PATCH 110/129] fix: statistics: planar covariance ellipse axes stay
 perpendicular for small correlations

---
 .../src/lib/covariance_ellipsoid.cpp           | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/ecl_statistics/src/lib/covariance_ellipsoid.cpp b/ecl_statistics/src/lib/covariance_ellipsoid.cpp
index 8d39a7a..ab42320 100644
--- a/ecl_statistics/src/lib/covariance_ellipsoid.cpp
+++ b/ecl_statistics/src/lib/covariance_ellipsoid.cpp
@@ -65,9 +65,10 @@ void CovarianceEllipsoid<float,2>::compute(const ecl::linear_algebra::Matrix2f &
 	** Eigenvectors
 	**********************/
     if( c != 0 ) {
-        ellipse_axes(0,0) = ellipse_lengths(0)*ellipse_lengths(0)-d;
+        // lambda - d, written so that it does not cancel when c is small
+        ellipse_axes(0,0) = ( a > d ) ? tmp + (a-d)/2 : c*(c/(tmp + (d-a)/2));
         ellipse_axes(1,0) = c;
-        ellipse_axes(0,1) = ellipse_lengths(1)*ellipse_lengths(1)-d;
+        ellipse_axes(0,1) = ( a > d ) ? -c*(c/(tmp + (a-d)/2)) : -(tmp + (d-a)/2);
         ellipse_axes(1,1) = c;
     } else if( b != 0 ) {
     	ellipse_axes(0,0) = b;
@@ -87,8 +88,8 @@ void CovarianceEllipsoid<float,2>::compute(const ecl::linear_algebra::Matrix2f &
     /*********************
 	** Normalise Evectors
 	**********************/
-    ellipse_axes.block<2,1>(0,0).normalize();
-    ellipse_axes.block<2,1>(0,1).normalize();
+    ellipse_axes.block<2,1>(0,0).stableNormalize();
+    ellipse_axes.block<2,1>(0,1).stableNormalize();
 }
 
 double CovarianceEllipsoid<float,2>::rotation() {
@@ -161,9 +162,10 @@ void CovarianceEllipsoid<double,2>::compute(const ecl::linear_algebra::Matrix2d
 	** Eigenvectors
 	**********************/
     if( c != 0 ) {
-        ellipse_axes(0,0) = ellipse_lengths(0)*ellipse_lengths(0)-d;
+        // lambda - d, written so that it does not cancel when c is small
+        ellipse_axes(0,0) = ( a > d ) ? tmp + (a-d)/2 : c*(c/(tmp + (d-a)/2));
         ellipse_axes(1,0) = c;
-        ellipse_axes(0,1) = ellipse_lengths(1)*ellipse_lengths(1)-d;
+        ellipse_axes(0,1) = ( a > d ) ? -c*(c/(tmp + (a-d)/2)) : -(tmp + (d-a)/2);
         ellipse_axes(1,1) = c;
     } else if( b != 0 ) {
     	ellipse_axes(0,0) = b;
@@ -183,8 +185,8 @@ void CovarianceEllipsoid<double,2>::compute(const ecl::linear_algebra::Matrix2d
     /*********************
 	** Normalise Evectors
 	**********************/
-    ellipse_axes.block(0,0,2,1).normalize();
-    ellipse_axes.block(0,1,2,1).normalize();
+    ellipse_axes.block<2,1>(0,0).stableNormalize();
+    ellipse_axes.block<2,1>(0,1).stableNormalize();
 }
 
 double CovarianceEllipsoid<double,2>::rotation() {
-- 
2.43.0


From 84eee0a4cb2df1f0cdf60b403059a0d6d24661bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:57 +0000
Subject: [PATCH 111/129] fix: statistics: spatial covariance ellipsoid axes
 are perpendicular when eigenvalues repeat

---
 .../src/lib/covariance_ellipsoid.cpp          | 28 +++++++++----------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/ecl_statistics/src/lib/covariance_ellipsoid.cpp b/ecl_statistics/src/lib/covariance_ellipsoid.cpp
index ab42320..69106da 100644
--- a/ecl_statistics/src/lib/covariance_ellipsoid.cpp
+++ b/ecl_statistics/src/lib/covariance_ellipsoid.cpp
@@ -241,12 +241,12 @@ CovarianceEllipsoid<float,3>::CovarianceEllipsoid(const ecl::linear_algebra::Mat
 }
 void CovarianceEllipsoid<float,3>::compute(const ecl::linear_algebra::Matrix3f &M, const bool sort) {
 
-	Eigen::EigenSolver<Matrix3f> esolver(M);
+	Eigen::SelfAdjointEigenSolver<Matrix3f> esolver(M);
 
-	ellipse_lengths[0] = sqrtf(esolver.pseudoEigenvalueMatrix()(0,0));
-	ellipse_lengths[1] = sqrtf(esolver.pseudoEigenvalueMatrix()(1,1));
-	ellipse_lengths[2] = sqrtf(esolver.pseudoEigenvalueMatrix()(2,2));
-	ellipse_axes = esolver.pseudoEigenvectors ();
+	ellipse_lengths[0] = sqrtf(esolver.eigenvalues()(0));
+	ellipse_lengths[1] = sqrtf(esolver.eigenvalues()(1));
+	ellipse_lengths[2] = sqrtf(esolver.eigenvalues()(2));
+	ellipse_axes = esolver.eigenvectors();
 
 	if ( sort ) {
 		// Note that sorting of eigenvalues may end up with left-hand coordinate system.
@@ -256,8 +256,8 @@ void CovarianceEllipsoid<float,3>::compute(const ecl::linear_algebra::Matrix3f &
 		ecl::linear_algebra::Vector3f c2 = ellipse_axes.block<3,1>(0,2);  c2.normalize();
 		ecl::linear_algebra::Vector3f cc = c0.cross(c1);
 		if (cc.dot(c2) < 0) {
-			ellipse_axes << c1, c0, c2;
-		  double e = ellipse_lengths[0];  ellipse_lengths[0] = ellipse_lengths[1];  ellipse_lengths[1] = e;
+			ellipse_axes << c0, c2, c1;
+		  double e = ellipse_lengths[1];  ellipse_lengths[1] = ellipse_lengths[2];  ellipse_lengths[2] = e;
 		} else {
 			ellipse_axes << c0, c1, c2;
 		}
@@ -273,12 +273,12 @@ CovarianceEllipsoid<double,3>::CovarianceEllipsoid(const ecl::linear_algebra::Ma
 	compute(M,sort);
 }
 void CovarianceEllipsoid<double,3>::compute(const ecl::linear_algebra::Matrix3d &M, const bool sort) {
-	Eigen::EigenSolver<Matrix3d> esolver(M);
+	Eigen::SelfAdjointEigenSolver<Matrix3d> esolver(M);
 
-	ellipse_lengths[0] = sqrt(esolver.pseudoEigenvalueMatrix()(0,0));
-	ellipse_lengths[1] = sqrt(esolver.pseudoEigenvalueMatrix()(1,1));
-	ellipse_lengths[2] = sqrt(esolver.pseudoEigenvalueMatrix()(2,2));
-	ellipse_axes = esolver.pseudoEigenvectors ();
+	ellipse_lengths[0] = sqrt(esolver.eigenvalues()(0));
+	ellipse_lengths[1] = sqrt(esolver.eigenvalues()(1));
+	ellipse_lengths[2] = sqrt(esolver.eigenvalues()(2));
+	ellipse_axes = esolver.eigenvectors();
 
 	if ( sort ) {
 		// Note that sorting of eigenvalues may end up with left-hand coordinate system.
@@ -288,8 +288,8 @@ void CovarianceEllipsoid<double,3>::compute(const ecl::linear_algebra::Matrix3d
 		ecl::linear_algebra::Vector3d c2 = ellipse_axes.block<3,1>(0,2);  c2.normalize();
 		ecl::linear_algebra::Vector3d cc = c0.cross(c1);
 		if (cc.dot(c2) < 0) {
-			ellipse_axes << c1, c0, c2;
-		  double e = ellipse_lengths[0];  ellipse_lengths[0] = ellipse_lengths[1];  ellipse_lengths[1] = e;
+			ellipse_axes << c0, c2, c1;
+		  double e = ellipse_lengths[1];  ellipse_lengths[1] = ellipse_lengths[2];  ellipse_lengths[2] = e;
 		} else {
 			ellipse_axes << c0, c1, c2;
 		}
-- 
2.43.0


From 2abab6b18d6c1a4d652c3bdd53962af996d8031e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:03 +0000
Subject: [PATCH 112/129] fix: manipulators: linearly interpolated trajectories
 end with the rates they were given

---
 ecl_manipulators/src/lib/trajectory.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ecl_manipulators/src/lib/trajectory.cpp b/ecl_manipulators/src/lib/trajectory.cpp
index 93b36b7..9442f46 100644
--- a/ecl_manipulators/src/lib/trajectory.cpp
+++ b/ecl_manipulators/src/lib/trajectory.cpp
@@ -725,7 +725,10 @@ Array<SmoothLinearSpline> Trajectory<JointAngles>::generateLinearSplines()
         }
       }
     }
-    t_pullforward = t_pullforward * 2; // takes 12 runs to get from 1ms to 1s, adjust, if this is too much
+    if (acceleration_constraint_broken)
+    {
+      t_pullforward = t_pullforward * 2; // takes 12 runs to get from 1ms to 1s, adjust, if this is too much
+    }
   }
   if (acceleration_constraint_broken)
   {
-- 
2.43.0


From bf9bf08a9bb02044875ea1a2704861ee1a253d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:03 +0000
Subject: [PATCH 113/129] fix: manipulators: stretch the last segment, not the
 first, when the end of a trajectory is too tight

---
 ecl_manipulators/src/lib/trajectory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_manipulators/src/lib/trajectory.cpp b/ecl_manipulators/src/lib/trajectory.cpp
index 9442f46..566dd1e 100644
--- a/ecl_manipulators/src/lib/trajectory.cpp
+++ b/ecl_manipulators/src/lib/trajectory.cpp
@@ -732,7 +732,7 @@ Array<SmoothLinearSpline> Trajectory<JointAngles>::generateLinearSplines()
   }
   if (acceleration_constraint_broken)
   {
-    throw DataException<int>(LOC, ConstructorError, "Max acceleration bound broken by pre pseudo point.", 0);
+    throw DataException<int>(LOC, ConstructorError, "Max acceleration bound broken by post pseudo point.", n + 2);
   }
   post_pseudo_waypoint.duration(t_pullforward - t_post_intersect_duration);
   for (unsigned int j = 0; j < dimension(); ++j)
-- 
2.43.0


From 19e2c69b686e12470cf2d906d8a67c092567701c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:03 +0000
Subject: [PATCH 114/129] fix: manipulators: trajectories refuse unset
 acceleration limits instead of stretching forever

---
 ecl_manipulators/src/lib/trajectory.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/ecl_manipulators/src/lib/trajectory.cpp b/ecl_manipulators/src/lib/trajectory.cpp
index 566dd1e..d9d8d18 100644
--- a/ecl_manipulators/src/lib/trajectory.cpp
+++ b/ecl_manipulators/src/lib/trajectory.cpp
@@ -48,6 +48,13 @@ void Trajectory<JointAngles>::tensionSplineInterpolation(const double &tension)
       result,
       StandardException(LOC,ConfigurationError,"Not all the waypoint maximum rates have been specified correctly (must be > 0.0)."));
 
+  for (unsigned int j = 0; j < dimension(); ++j)
+  {
+    if (max_accelerations[j] == 0.0)
+    {
+      throw StandardException(LOC, ConfigurationError, "Not all the joint maximum accelerations have been specified.");
+    }
+  }
   result = initialiseWaypointDurations();
   ecl_assert_throw( result,
                    StandardException(LOC,ConfigurationError,"A waypoint was configured with a zero duration."));
@@ -90,7 +97,7 @@ void Trajectory<JointAngles>::tensionSplineInterpolation(const double &tension)
 //                std::cout << "  Domain: " << domain << std::endl;
 //                std::cout << "  Accel[" << i << "," << j << "]: " << accel << std::endl;
 //                sleep(1);
-        if (accel > max_accelerations[j])
+        if (accel > fabs(max_accelerations[j]))
         {
           splines_constrained = false;
           double slope_before = fabs(
@@ -287,6 +294,13 @@ void Trajectory<JointAngles>::linearSplineInterpolation()
     throw StandardException(LOC, ConfigurationError,
                             "Not all the waypoint maximum rates have been specified correctly (must be > 0.0).");
   }
+  for (unsigned int j = 0; j < dimension(); ++j)
+  {
+    if (max_accelerations[j] == 0.0)
+    {
+      throw StandardException(LOC, ConfigurationError, "Not all the joint maximum accelerations have been specified.");
+    }
+  }
   if (!initialiseWaypointDurations())
   {
     throw StandardException(LOC, ConfigurationError, "A waypoint was configured with a zero duration.");
-- 
2.43.0


From 0df43ee838df3bdd0f6878542615c52eee0b83f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:03 +0000
Subject: [PATCH 115/129] fix: manipulators: tension spline trajectories stay
 continuous and within limits when an end segment is stretched

---
 ecl_manipulators/src/lib/trajectory.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ecl_manipulators/src/lib/trajectory.cpp b/ecl_manipulators/src/lib/trajectory.cpp
index d9d8d18..340bc30 100644
--- a/ecl_manipulators/src/lib/trajectory.cpp
+++ b/ecl_manipulators/src/lib/trajectory.cpp
@@ -196,7 +196,8 @@ void Trajectory<JointAngles>::tensionSplineInterpolation(const double &tension)
       { // give up, go back to start of while loop with increased duration
 //				std::cout << "Quintic unconstrained, increasing the first duration : " << waypoints[0].duration() << std::endl;
         waypoints[0].duration(waypoints[0].duration() * 1.1); // 10% increase
-        break; // from the for loop
+        tensionSplineInterpolation(tension); // the whole spline moved with it, so check it all again
+        return;
       }
     }
   }
@@ -262,7 +263,8 @@ void Trajectory<JointAngles>::tensionSplineInterpolation(const double &tension)
       if (!quintic_constrained)
       { // give up, go back to start of while loop with increased duration
         waypoints[n - 1].duration(waypoints[n - 1].duration() * 1.1); // 10% increase
-        break;
+        tensionSplineInterpolation(tension); // the whole spline moved with it, so check it all again
+        return;
       }
     }
   }
-- 
2.43.0


From c79a542b86f0c647ee77f1eb72b915a73ca1b272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:16 +0000
Subject: [PATCH 116/129] fix: manipulators: reading a trajectory that was not
 interpolated is refused

---
 ecl_manipulators/src/lib/trajectory.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ecl_manipulators/src/lib/trajectory.cpp b/ecl_manipulators/src/lib/trajectory.cpp
index 340bc30..20c308d 100644
--- a/ecl_manipulators/src/lib/trajectory.cpp
+++ b/ecl_manipulators/src/lib/trajectory.cpp
@@ -396,6 +396,7 @@ double Trajectory<JointAngles>::operator ()(const unsigned int& joint, const dou
 
 {
 
+  ecl_assert_throw( !spline_functions[joint].empty() && ( spline_functions[joint].back() != NULL ), StandardException(LOC,UsageError,"The trajectory has not been interpolated."));
   double t_f = spline_functions[joint][spline_functions[joint].size() - 1]->domain()[1];
   ecl_assert_throw( ( time >= 0.0 ) && ( time <= t_f + 0.0001 ), StandardException(LOC,OutOfRangeError));
   unsigned int i;
@@ -414,6 +415,7 @@ double Trajectory<JointAngles>::derivative(const unsigned int& joint, const doub
 
 {
 
+  ecl_assert_throw( !spline_functions[joint].empty() && ( spline_functions[joint].back() != NULL ), StandardException(LOC,UsageError,"The trajectory has not been interpolated."));
   double t_f = spline_functions[joint][spline_functions[joint].size() - 1]->domain()[1];
   ecl_assert_throw( ( time >= 0.0 ) && ( time <= t_f + 0.0001 ), StandardException(LOC,OutOfRangeError));
   unsigned int i;
@@ -433,6 +435,7 @@ double Trajectory<JointAngles>::dderivative(const unsigned int& joint, const dou
 
 {
 
+  ecl_assert_throw( !spline_functions[joint].empty() && ( spline_functions[joint].back() != NULL ), StandardException(LOC,UsageError,"The trajectory has not been interpolated."));
   double t_f = spline_functions[joint][spline_functions[joint].size() - 1]->domain()[1];
   ecl_assert_throw( ( time >= 0.0 ) && ( time <= t_f + 0.0001 ), StandardException(LOC,OutOfRangeError));
   unsigned int i;
-- 
2.43.0


From 799b22580b910355cdedc4d61d7545b2ca74a399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:25 +0000
Subject: [PATCH 117/129] fix: manipulators: a trajectory that was not
 interpolated has no duration instead of a random one

---
 ecl_manipulators/include/ecl/manipulators/trajectory.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ecl_manipulators/include/ecl/manipulators/trajectory.hpp b/ecl_manipulators/include/ecl/manipulators/trajectory.hpp
index a1814aa..9c0d453 100644
--- a/ecl_manipulators/include/ecl/manipulators/trajectory.hpp
+++ b/ecl_manipulators/include/ecl/manipulators/trajectory.hpp
@@ -91,7 +91,8 @@ class Trajectory<JointAngles> {
          * @param name_identifier : string identifier for the trajectory name.
          */
         Trajectory(const char* name_identifier = "") :
-            name(name_identifier)
+            name(name_identifier),
+            trajectory_duration(0.0)
         {}
         /**
          * @brief Configures the joint dimension, and also (optionally) the trajectory name.
@@ -102,7 +103,8 @@ class Trajectory<JointAngles> {
         Trajectory(const unsigned int& dimension, const char* name_identifier = "") :
             name(name_identifier),
             spline_functions(dimension),
-            max_accelerations(Array<double>::Constant(dimension,0.0))
+            max_accelerations(Array<double>::Constant(dimension,0.0)),
+            trajectory_duration(0.0)
         {}
 
         /**
@@ -114,7 +116,7 @@ class Trajectory<JointAngles> {
         /**
          * @brief Clear the waypoints and splines.
          */
-        void clear() { clearSplines(); waypoints.clear(); }
+        void clear() { clearSplines(); waypoints.clear(); trajectory_duration = 0.0; }
         /**
          * @brief Number of waypoints in the trajectory.
          *
-- 
2.43.0


From 39f5e1c3c1cb110a82de88142ec63bd1425c3fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:26 +0000
Subject: [PATCH 118/129] fix: manipulators: way points of different dimensions
 are not equal

---
 ecl_manipulators/include/ecl/manipulators/waypoint.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ecl_manipulators/include/ecl/manipulators/waypoint.hpp b/ecl_manipulators/include/ecl/manipulators/waypoint.hpp
index 8fc2a11..cc29584 100644
--- a/ecl_manipulators/include/ecl/manipulators/waypoint.hpp
+++ b/ecl_manipulators/include/ecl/manipulators/waypoint.hpp
@@ -306,6 +306,7 @@ class WayPoint<JointAngles>
          * @return bool : true if all angles are equal, false otherwise.
          */
         bool operator==(const WayPoint<JointAngles>& other) const {
+        	if ( dimension() != other.dimension() ) { return false; }
         	for ( unsigned int i = 0; i < angle_positions.size(); ++i ) {
         		if ( angle_positions[i] != other.angle_positions[i] ) {
         			return false;
@@ -324,6 +325,7 @@ class WayPoint<JointAngles>
          * @return bool : true if not all angles are equal, false otherwise.
          */
         bool operator!=(const WayPoint<JointAngles>& other) const {
+        	if ( dimension() != other.dimension() ) { return true; }
         	for ( unsigned int i = 0; i < angle_positions.size(); ++i ) {
         		if ( angle_positions[i] != other.angle_positions[i] ) {
         			return true;
@@ -344,6 +346,7 @@ class WayPoint<JointAngles>
          * @return bool : true if all angles are approximately equal, false otherwise.
          */
         bool approx(const WayPoint<JointAngles> &other, const double& epsilon = 0.01) {
+        	if ( dimension() != other.dimension() ) { return false; }
         	for ( unsigned int i = 0; i < angle_positions.size(); ++i ) {
         		if ( std::fabs(angle_positions[i] - other.angle_positions[i]) > epsilon ) {
         			return false;
-- 
2.43.0


From cc1c0391d35614e09b5f4b4a38f2b8c33ba65bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:03 +0000
Subject: [PATCH 119/129] fix: filesystem: a path that cannot be resolved leaks
 nothing and leaves no undefined result

---
 ecl_filesystem/src/lib/realpath.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ecl_filesystem/src/lib/realpath.cpp b/ecl_filesystem/src/lib/realpath.cpp
index 4bc7922..77929b3 100644
--- a/ecl_filesystem/src/lib/realpath.cpp
+++ b/ecl_filesystem/src/lib/realpath.cpp
@@ -45,11 +45,13 @@ ecl_filesystem_PUBLIC ecl::Error realpath(const std::string& path, std::string&
 
   char *buffer = new char[path_max];
   char *result = ::realpath(path.c_str(), buffer);
-  absolute_path = buffer;
+  int error = errno;
   if ( result != NULL ) {
     absolute_path = buffer;
-  } else {
-    switch(errno) {
+  }
+  delete[] buffer;
+  if ( result == NULL ) {
+    switch(error) {
       case(EACCES)       : { return Error(PermissionsError); }   // Read or search permission was denied for a component of the path prefix.
       case(EINVAL)       : { return Error(InvalidArgError); }    // path is NULL
       case(EIO)          : { return Error(ReadError); }          // An I/O error occurred while reading from the filesystem.
@@ -60,7 +62,6 @@ ecl_filesystem_PUBLIC ecl::Error realpath(const std::string& path, std::string&
       default            : { return Error(UnknownError); }
     }
   }
-  delete[] buffer;
   return Error(NoError);
 }
 
-- 
2.43.0


From f062a538f946edf2ddfbf651ff0ecc2f7ec406a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:48 +0000
Subject: [PATCH 120/129] fix: devices: socket exceptions tell the location
 that raised them

---
 .../detail/socket_exception_handler_pos.cpp   | 162 +++++++++---------
 1 file changed, 81 insertions(+), 81 deletions(-)

diff --git a/ecl_devices/src/lib/detail/socket_exception_handler_pos.cpp b/ecl_devices/src/lib/detail/socket_exception_handler_pos.cpp
index 7061718..ab5e6eb 100644
--- a/ecl_devices/src/lib/detail/socket_exception_handler_pos.cpp
+++ b/ecl_devices/src/lib/detail/socket_exception_handler_pos.cpp
@@ -33,14 +33,14 @@ namespace devices {
 
 StandardException socket_exception(const char* loc) {
     switch( errno ) {
-        case ( EACCES )     : return StandardException(LOC,OpenError,"Unable to open socket. Permission to create is denied.");
-        case ( EAFNOSUPPORT): return StandardException(LOC,NotSupportedError,"Unable to open socket. Your implementation does not support the specified address family (in this case AF_INET or otherwise known as ipv4).");
-        case ( EINVAL )     : return StandardException(LOC,InvalidArgError,"Unable to open socket. Unknown or invalid protocol, family.");
-        case ( EMFILE )     : return StandardException(LOC,OutOfRangeError,"Unable to open socket. Process file table overflow.");
-        case ( ENFILE )     : return StandardException(LOC,OutOfResourcesError,"Unable to open socket. The system limit on the number of open files has been reached.");
-        case ( ENOBUFS )    : return StandardException(LOC,MemoryError,"Unable to open socket. Insufficient memory available.");
-        case ( ENOMEM )     : return StandardException(LOC,MemoryError,"Unable to open socket. Insufficient memory available.");
-        case ( EPROTONOSUPPORT )    : return StandardException(LOC,NotSupportedError,"Unable to open socket. The protocol type (socket streams) is not supported within this address family (ipv4).");
+        case ( EACCES )     : return StandardException(loc,OpenError,"Unable to open socket. Permission to create is denied.");
+        case ( EAFNOSUPPORT): return StandardException(loc,NotSupportedError,"Unable to open socket. Your implementation does not support the specified address family (in this case AF_INET or otherwise known as ipv4).");
+        case ( EINVAL )     : return StandardException(loc,InvalidArgError,"Unable to open socket. Unknown or invalid protocol, family.");
+        case ( EMFILE )     : return StandardException(loc,OutOfRangeError,"Unable to open socket. Process file table overflow.");
+        case ( ENFILE )     : return StandardException(loc,OutOfResourcesError,"Unable to open socket. The system limit on the number of open files has been reached.");
+        case ( ENOBUFS )    : return StandardException(loc,MemoryError,"Unable to open socket. Insufficient memory available.");
+        case ( ENOMEM )     : return StandardException(loc,MemoryError,"Unable to open socket. Insufficient memory available.");
+        case ( EPROTONOSUPPORT )    : return StandardException(loc,NotSupportedError,"Unable to open socket. The protocol type (socket streams) is not supported within this address family (ipv4).");
 		default             : {
 			std::ostringstream ostream;
 			ostream << "Unknown errno [" << errno << "]";
@@ -51,19 +51,19 @@ StandardException socket_exception(const char* loc) {
 
 StandardException bind_exception(const char* loc) {
     switch( errno ) {
-        case ( EACCES )     : return StandardException(LOC,PermissionsError,"Unable to bind the socket. The address is protected (maybe need to be superuser?).");
-        case ( EADDRINUSE ) : return StandardException(LOC,BusyError,"Unable to bind the socket. Address already in use (might be timing out, try again in a moment).");
-        case ( EBADF )      : return StandardException(LOC,InvalidObjectError,"Unable to bind the socket. Not a valid socket descriptor.");
-        case ( EINVAL )     : return StandardException(LOC,BusyError,"Unable to bind the socket. The socket is already bound to an address.");
-        case ( ENOTSOCK )   : return StandardException(LOC,InvalidObjectError,"Unable to bind the socket. The descriptor is a file descriptor, not a socket descriptor.");
-        case ( EADDRNOTAVAIL ) : return StandardException(LOC,InvalidObjectError,"Unable to bind the socket. Interface does not exist or is not local.");
-        case ( EFAULT )     : return StandardException(LOC,OutOfRangeError,"Unable to bind the socket. Socket specification is outside the user address space.");
-        case ( ELOOP )      : return StandardException(LOC,SystemFailureError,"Unable to bind the socket. Too many symbolic links involved.");
-        case ( ENAMETOOLONG )  : return StandardException(LOC,InvalidArgError,"Unable to bind the socket. Address is too long.");
-        case ( ENOENT )     : return StandardException(LOC,InvalidObjectError,"Unable to bind the socket. The file does not exist.");
-        case ( ENOMEM )     : return StandardException(LOC,MemoryError,"Unable to bind the socket. Insufficient kernel memory.");
-        case ( ENOTDIR )    : return StandardException(LOC,InvalidArgError,"Unable to bind the socket. A component of the path prefix is not a directory.");
-        case ( EROFS )      : return StandardException(LOC,PermissionsError,"Unable to bind the socket. Socket inode resides on a read only file system.");
+        case ( EACCES )     : return StandardException(loc,PermissionsError,"Unable to bind the socket. The address is protected (maybe need to be superuser?).");
+        case ( EADDRINUSE ) : return StandardException(loc,BusyError,"Unable to bind the socket. Address already in use (might be timing out, try again in a moment).");
+        case ( EBADF )      : return StandardException(loc,InvalidObjectError,"Unable to bind the socket. Not a valid socket descriptor.");
+        case ( EINVAL )     : return StandardException(loc,BusyError,"Unable to bind the socket. The socket is already bound to an address.");
+        case ( ENOTSOCK )   : return StandardException(loc,InvalidObjectError,"Unable to bind the socket. The descriptor is a file descriptor, not a socket descriptor.");
+        case ( EADDRNOTAVAIL ) : return StandardException(loc,InvalidObjectError,"Unable to bind the socket. Interface does not exist or is not local.");
+        case ( EFAULT )     : return StandardException(loc,OutOfRangeError,"Unable to bind the socket. Socket specification is outside the user address space.");
+        case ( ELOOP )      : return StandardException(loc,SystemFailureError,"Unable to bind the socket. Too many symbolic links involved.");
+        case ( ENAMETOOLONG )  : return StandardException(loc,InvalidArgError,"Unable to bind the socket. Address is too long.");
+        case ( ENOENT )     : return StandardException(loc,InvalidObjectError,"Unable to bind the socket. The file does not exist.");
+        case ( ENOMEM )     : return StandardException(loc,MemoryError,"Unable to bind the socket. Insufficient kernel memory.");
+        case ( ENOTDIR )    : return StandardException(loc,InvalidArgError,"Unable to bind the socket. A component of the path prefix is not a directory.");
+        case ( EROFS )      : return StandardException(loc,PermissionsError,"Unable to bind the socket. Socket inode resides on a read only file system.");
 		default             : {
 			std::ostringstream ostream;
 			ostream << "Unknown error [" << errno << "]";
@@ -74,20 +74,20 @@ StandardException bind_exception(const char* loc) {
 
 StandardException accept_exception(const char* loc) {
     switch( errno ) {
-		case ( EWOULDBLOCK ) : return StandardException(LOC,BlockingError,"Unable to accept client connection. The socket is non-blocking and no connections are available.");
-		case ( EBADF )       : return StandardException(LOC,InvalidObjectError,"Unable to accept client connection. Not a valid socket descriptor.");
-		case ( ECONNABORTED ): return StandardException(LOC,InterruptedError,"Unable to accept client connection. A connection has been aborted.");
-		case ( EINTR )       : return StandardException(LOC,InterruptedError,"Unable to accept client connection. A system signal has interrupted.");
-		case ( EINVAL )      : return StandardException(LOC,UsageError,"Unable to accept client connection. Socket is not listening for connections or address length is invalid.");
-		case ( EMFILE )      : return StandardException(LOC,OutOfResourcesError,"Unable to accept client connection. The system or per-process limit on files has been reached.");
-		case ( ENFILE )      : return StandardException(LOC,OutOfResourcesError,"Unable to accept client connection. The system or per-process limit on files has been reached.");
-		case ( ENOTSOCK )    : return StandardException(LOC,InvalidObjectError,"Unable to accept client connection. The descriptor is a file descriptor, not a socket descriptor..");
-		case ( EOPNOTSUPP )  : return StandardException(LOC,InvalidObjectError,"Unable to accept client connection. The client socket is not of type SOCK_STREAM.");
-		case ( EFAULT )      : return StandardException(LOC,PermissionsError,"Unable to accept client connection. The address argument is not writable by the user.");
-		case ( ENOBUFS )     : return StandardException(LOC,MemoryError,"Unable to accept client connection. Not enough free memory (buffer or system).");
-		case ( ENOMEM )      : return StandardException(LOC,MemoryError,"Unable to accept client connection. Not enough free memory (buffer or system).");
-		case ( EPROTO )      : return StandardException(LOC,InvalidArgError,"Unable to accept client connection. Protocol error.");
-		case ( EPERM )       : return StandardException(LOC,PermissionsError,"Unable to accept client connection. Permissions do not allow this connection.");
+		case ( EWOULDBLOCK ) : return StandardException(loc,BlockingError,"Unable to accept client connection. The socket is non-blocking and no connections are available.");
+		case ( EBADF )       : return StandardException(loc,InvalidObjectError,"Unable to accept client connection. Not a valid socket descriptor.");
+		case ( ECONNABORTED ): return StandardException(loc,InterruptedError,"Unable to accept client connection. A connection has been aborted.");
+		case ( EINTR )       : return StandardException(loc,InterruptedError,"Unable to accept client connection. A system signal has interrupted.");
+		case ( EINVAL )      : return StandardException(loc,UsageError,"Unable to accept client connection. Socket is not listening for connections or address length is invalid.");
+		case ( EMFILE )      : return StandardException(loc,OutOfResourcesError,"Unable to accept client connection. The system or per-process limit on files has been reached.");
+		case ( ENFILE )      : return StandardException(loc,OutOfResourcesError,"Unable to accept client connection. The system or per-process limit on files has been reached.");
+		case ( ENOTSOCK )    : return StandardException(loc,InvalidObjectError,"Unable to accept client connection. The descriptor is a file descriptor, not a socket descriptor..");
+		case ( EOPNOTSUPP )  : return StandardException(loc,InvalidObjectError,"Unable to accept client connection. The client socket is not of type SOCK_STREAM.");
+		case ( EFAULT )      : return StandardException(loc,PermissionsError,"Unable to accept client connection. The address argument is not writable by the user.");
+		case ( ENOBUFS )     : return StandardException(loc,MemoryError,"Unable to accept client connection. Not enough free memory (buffer or system).");
+		case ( ENOMEM )      : return StandardException(loc,MemoryError,"Unable to accept client connection. Not enough free memory (buffer or system).");
+		case ( EPROTO )      : return StandardException(loc,InvalidArgError,"Unable to accept client connection. Protocol error.");
+		case ( EPERM )       : return StandardException(loc,PermissionsError,"Unable to accept client connection. Permissions do not allow this connection.");
 		default             : {
 			std::ostringstream ostream;
 			ostream << "Unknown error [" << errno << "]";
@@ -99,15 +99,15 @@ StandardException accept_exception(const char* loc) {
 StandardException receive_exception(const char* loc) {
 
     switch( errno ) {
-		case ( EWOULDBLOCK ) : return StandardException(LOC,InterruptedError,"Unable to read the socket. Probably a timeout occured.");
-		case ( EBADF       ) : return StandardException(LOC,InvalidObjectError,"Unable to read the socket. Bad file descriptor.");
-		case ( ECONNREFUSED) : return StandardException(LOC,ConnectionError,"Unable to read the socket. Remote host refused the connection (probably not running).");
-		case ( EFAULT      ) : return StandardException(LOC,SystemFailureError,"Unable to read the socket. Receive buffer has an address problem.");
-		case ( EINTR       ) : return StandardException(LOC,InterruptedError,"Unable to read the socket. Signal interruption.");
-		case ( EINVAL      ) : return StandardException(LOC,InvalidArgError,"Unable to read the socket. Invalid argument was used.");
-		case ( ENOMEM      ) : return StandardException(LOC,MemoryError,"Unable to read the socket. Could not allocate memory for the operation.");
-		case ( ENOTCONN    ) : return StandardException(LOC,ConnectionError,"Unable to read the socket. Has not been connected.");
-		case ( ENOTSOCK    ) : return StandardException(LOC,InvalidObjectError,"Unable to read the socket. The file descriptor does not refer to a socket.");
+		case ( EWOULDBLOCK ) : return StandardException(loc,InterruptedError,"Unable to read the socket. Probably a timeout occured.");
+		case ( EBADF       ) : return StandardException(loc,InvalidObjectError,"Unable to read the socket. Bad file descriptor.");
+		case ( ECONNREFUSED) : return StandardException(loc,ConnectionError,"Unable to read the socket. Remote host refused the connection (probably not running).");
+		case ( EFAULT      ) : return StandardException(loc,SystemFailureError,"Unable to read the socket. Receive buffer has an address problem.");
+		case ( EINTR       ) : return StandardException(loc,InterruptedError,"Unable to read the socket. Signal interruption.");
+		case ( EINVAL      ) : return StandardException(loc,InvalidArgError,"Unable to read the socket. Invalid argument was used.");
+		case ( ENOMEM      ) : return StandardException(loc,MemoryError,"Unable to read the socket. Could not allocate memory for the operation.");
+		case ( ENOTCONN    ) : return StandardException(loc,ConnectionError,"Unable to read the socket. Has not been connected.");
+		case ( ENOTSOCK    ) : return StandardException(loc,InvalidObjectError,"Unable to read the socket. The file descriptor does not refer to a socket.");
 		default             : {
 			std::ostringstream ostream;
 			ostream << "Unknown error [" << errno << "]";
@@ -119,21 +119,21 @@ StandardException receive_exception(const char* loc) {
 StandardException send_exception(const char* loc) {
 
 	switch( errno ) {
-		case ( EWOULDBLOCK ) : return StandardException(LOC,BlockingError,"Unable to write to the socket. Socket is configured as non-blocking and this would block.");
-		case ( EACCES      ) : return StandardException(LOC,PermissionsError,"Unable to write to the socket. Permission to write is denied.");
-		case ( EBADF       ) : return StandardException(LOC,InvalidObjectError,"Unable to write to the socket. Bad file descriptor.");
-		case ( ECONNRESET  ) : return StandardException(LOC,InterruptedError,"Unable to write to the socket. Connection reset by peer.");
-		case ( EFAULT      ) : return StandardException(LOC,SystemFailureError,"Unable to write to the socket. Buffer has an address problem.");
-		case ( EINTR       ) : return StandardException(LOC,InterruptedError,"Unable to write to the socket. Signal interruption.");
-		case ( EINVAL      ) : return StandardException(LOC,InvalidArgError,"Unable to write to the socket. Invalid argument was used.");
-		case ( EISCONN     ) : return StandardException(LOC,ConnectionError,"Unable to write to the socket. Connection mismatch???");
-		case ( EMSGSIZE    ) : return StandardException(LOC,WriteError,"Unable to write to the socket. Socket type required to send atomically, but the size of this message is too large to handle in this way.");
-		case ( ENOBUFS     ) : return StandardException(LOC,OutOfResourcesError,"Unable to write to the socket. Output queue is full (could be caused by transient congestion, but this doesn't usually happen in linux which typically just drops packets).");
-		case ( ENOMEM      ) : return StandardException(LOC,MemoryError,"Unable to write to the socket. Could not allocate memory for the operation.");
-		case ( ENOTCONN    ) : return StandardException(LOC,ConnectionError,"Unable to write to the socket. Has not been connected.");
-		case ( ENOTSOCK    ) : return StandardException(LOC,InvalidObjectError,"Unable to write to the socket. The file descriptor does not refer to a socket.");
-		case ( EOPNOTSUPP  ) : return StandardException(LOC,NotSupportedError,"Unable to write to the socket. Some api here not supported.");
-		case ( EPIPE       ) : return StandardException(LOC,InterruptedError,"Unable to write to the socket. Local end has been shutdown. Probably bad and will receive a SIGPIPE signal too.");
+		case ( EWOULDBLOCK ) : return StandardException(loc,BlockingError,"Unable to write to the socket. Socket is configured as non-blocking and this would block.");
+		case ( EACCES      ) : return StandardException(loc,PermissionsError,"Unable to write to the socket. Permission to write is denied.");
+		case ( EBADF       ) : return StandardException(loc,InvalidObjectError,"Unable to write to the socket. Bad file descriptor.");
+		case ( ECONNRESET  ) : return StandardException(loc,InterruptedError,"Unable to write to the socket. Connection reset by peer.");
+		case ( EFAULT      ) : return StandardException(loc,SystemFailureError,"Unable to write to the socket. Buffer has an address problem.");
+		case ( EINTR       ) : return StandardException(loc,InterruptedError,"Unable to write to the socket. Signal interruption.");
+		case ( EINVAL      ) : return StandardException(loc,InvalidArgError,"Unable to write to the socket. Invalid argument was used.");
+		case ( EISCONN     ) : return StandardException(loc,ConnectionError,"Unable to write to the socket. Connection mismatch???");
+		case ( EMSGSIZE    ) : return StandardException(loc,WriteError,"Unable to write to the socket. Socket type required to send atomically, but the size of this message is too large to handle in this way.");
+		case ( ENOBUFS     ) : return StandardException(loc,OutOfResourcesError,"Unable to write to the socket. Output queue is full (could be caused by transient congestion, but this doesn't usually happen in linux which typically just drops packets).");
+		case ( ENOMEM      ) : return StandardException(loc,MemoryError,"Unable to write to the socket. Could not allocate memory for the operation.");
+		case ( ENOTCONN    ) : return StandardException(loc,ConnectionError,"Unable to write to the socket. Has not been connected.");
+		case ( ENOTSOCK    ) : return StandardException(loc,InvalidObjectError,"Unable to write to the socket. The file descriptor does not refer to a socket.");
+		case ( EOPNOTSUPP  ) : return StandardException(loc,NotSupportedError,"Unable to write to the socket. Some api here not supported.");
+		case ( EPIPE       ) : return StandardException(loc,InterruptedError,"Unable to write to the socket. Local end has been shutdown. Probably bad and will receive a SIGPIPE signal too.");
 		default             : {
 			std::ostringstream ostream;
 			ostream << "Unknown error [" << errno << "]";
@@ -145,10 +145,10 @@ StandardException send_exception(const char* loc) {
 StandardException ioctl_exception(const char* loc) {
 
 	switch( errno ) {
-		case ( EBADF       ) : return StandardException(LOC,InvalidObjectError, "Socket control error. The file descriptor was not valid.");
-		case ( EFAULT      ) : return StandardException(LOC,OutOfRangeError, "Socket control error. Tried to reference inaccessible memory.");
-		case ( EINVAL      ) : return StandardException(LOC,InvalidArgError, "Socket control error. Ioctl input arguments were not valid.");
-		case ( ENOTTY      ) : return StandardException(LOC,InvalidObjectError, "Socket control error. The file descriptor is not valid or this operation may not be performed on it.");
+		case ( EBADF       ) : return StandardException(loc,InvalidObjectError, "Socket control error. The file descriptor was not valid.");
+		case ( EFAULT      ) : return StandardException(loc,OutOfRangeError, "Socket control error. Tried to reference inaccessible memory.");
+		case ( EINVAL      ) : return StandardException(loc,InvalidArgError, "Socket control error. Ioctl input arguments were not valid.");
+		case ( ENOTTY      ) : return StandardException(loc,InvalidObjectError, "Socket control error. The file descriptor is not valid or this operation may not be performed on it.");
 		default             : {
 			std::ostringstream ostream;
 			ostream << "Unknown error [" << errno << "]";
@@ -163,11 +163,11 @@ StandardException gethostbyname_exception(const char* loc, const std::string& ho
 			std::string header;
 			header += "Unable to correctly determine the server hostname: ";
 			header += hostname;
-			return StandardException(LOC,OpenError,header);
+			return StandardException(loc,OpenError,header);
 		}
-		case ( TRY_AGAIN ) : return StandardException(LOC, OpenError,"A temporary error occurred on an authoritative name server. Try again later.");
-		case ( NO_ADDRESS )  : return StandardException(LOC,InvalidArgError,"Requested server hostname is valid, but does not have an IP address.");
-		case ( NO_RECOVERY ) : return StandardException(LOC,UnknownError);
+		case ( TRY_AGAIN ) : return StandardException(loc, OpenError,"A temporary error occurred on an authoritative name server. Try again later.");
+		case ( NO_ADDRESS )  : return StandardException(loc,InvalidArgError,"Requested server hostname is valid, but does not have an IP address.");
+		case ( NO_RECOVERY ) : return StandardException(loc,UnknownError);
 		default             : {
 			std::ostringstream ostream;
 			ostream << "Unknown error [" << h_errno << "]";
@@ -179,21 +179,21 @@ StandardException gethostbyname_exception(const char* loc, const std::string& ho
 StandardException connection_exception(const char* loc) {
     switch( errno ) {
         case ( EACCES )      :
-        case ( EPERM )       : return StandardException(LOC,PermissionsError,"Write permission on the socket denied or firewalled.");
-        case ( EADDRINUSE )  : return StandardException(LOC,BusyError,"Address already in use.");
-        case ( EAFNOSUPPORT ): return StandardException(LOC,NotSupportedError,"Incorrect address family used (no support for AF maybe?");
-        case ( EAGAIN )      : return StandardException(LOC,OutOfResourcesError,"No free local ports remaining.");
-        case ( EALREADY )    : return StandardException(LOC,BlockingError,"Socket is non-blocking and a previous connection attempt has not yet completed (wtf?).");
-        case ( EBADF )       : return StandardException(LOC,InvalidObjectError,"Not a valid socket descriptor.");
-        case ( ECONNREFUSED ): return StandardException(LOC,ConnectionRefusedError,"Connection refused (no-one listening).");
-        case ( EFAULT )      : return StandardException(LOC,OutOfRangeError,"Socket specification is outside the user address space.");
-        case ( EINPROGRESS ) : return StandardException(LOC,BlockingError,"Socket is non-blocking and the connection cannot be completed immediately (try select or poll for writing).");
-        case ( EINTR )       : return StandardException(LOC,InterruptedError,"Connection interrupted by a system signal.");
-        case ( EISCONN )     : return StandardException(LOC,ConnectionError,"This socket is already connected.");
+        case ( EPERM )       : return StandardException(loc,PermissionsError,"Write permission on the socket denied or firewalled.");
+        case ( EADDRINUSE )  : return StandardException(loc,BusyError,"Address already in use.");
+        case ( EAFNOSUPPORT ): return StandardException(loc,NotSupportedError,"Incorrect address family used (no support for AF maybe?");
+        case ( EAGAIN )      : return StandardException(loc,OutOfResourcesError,"No free local ports remaining.");
+        case ( EALREADY )    : return StandardException(loc,BlockingError,"Socket is non-blocking and a previous connection attempt has not yet completed (wtf?).");
+        case ( EBADF )       : return StandardException(loc,InvalidObjectError,"Not a valid socket descriptor.");
+        case ( ECONNREFUSED ): return StandardException(loc,ConnectionRefusedError,"Connection refused (no-one listening).");
+        case ( EFAULT )      : return StandardException(loc,OutOfRangeError,"Socket specification is outside the user address space.");
+        case ( EINPROGRESS ) : return StandardException(loc,BlockingError,"Socket is non-blocking and the connection cannot be completed immediately (try select or poll for writing).");
+        case ( EINTR )       : return StandardException(loc,InterruptedError,"Connection interrupted by a system signal.");
+        case ( EISCONN )     : return StandardException(loc,ConnectionError,"This socket is already connected.");
         case ( ENETUNREACH ) :
-        case ( EHOSTUNREACH ): return StandardException(LOC,NotFoundError,"The host is unreachable.");
-        case ( ENOTSOCK )    : return StandardException(LOC,InvalidObjectError,"This is not a socket file descriptor.");
-        case ( ETIMEDOUT )   : return StandardException(LOC,TimeOutError,"Timed out.");
+        case ( EHOSTUNREACH ): return StandardException(loc,NotFoundError,"The host is unreachable.");
+        case ( ENOTSOCK )    : return StandardException(loc,InvalidObjectError,"This is not a socket file descriptor.");
+        case ( ETIMEDOUT )   : return StandardException(loc,TimeOutError,"Timed out.");
 		default             : {
 			std::ostringstream ostream;
 			ostream << "Unknown error [" << errno << "]";
-- 
2.43.0


From e058d4f050498638e575183ecf01e5ccb0f49508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:48 +0000
Subject: [PATCH 121/129] fix: ipc: semaphore and shared memory exceptions tell
 the location that raised them

---
 ecl_ipc/src/lib/semaphore_pos.cpp     | 22 +++++++++++-----------
 ecl_ipc/src/lib/shared_memory_pos.cpp | 26 +++++++++++++-------------
 2 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/ecl_ipc/src/lib/semaphore_pos.cpp b/ecl_ipc/src/lib/semaphore_pos.cpp
index 38190a9..875933a 100644
--- a/ecl_ipc/src/lib/semaphore_pos.cpp
+++ b/ecl_ipc/src/lib/semaphore_pos.cpp
@@ -186,28 +186,28 @@ ecl::StandardException openSemaphoreException(const char* loc) {
 	int error_result = errno;
     switch ( error_result ) {
         case ( EACCES ) : {
-            return StandardException(LOC,PermissionsError,"The semaphore exists, but permission to open has been denied.");
+            return StandardException(loc,PermissionsError,"The semaphore exists, but permission to open has been denied.");
         }
         case ( EEXIST ) : {
-            return StandardException(LOC,PermissionsError,"The semaphore already exists, so your request to explicitly create was denied.");
+            return StandardException(loc,PermissionsError,"The semaphore already exists, so your request to explicitly create was denied.");
         }
         case ( ENOENT ) : {
-            return StandardException(LOC,ConfigurationError,"The semaphore requested doesn't already exist (you specifically requested it to just open, not create).");
+            return StandardException(loc,ConfigurationError,"The semaphore requested doesn't already exist (you specifically requested it to just open, not create).");
         }
         case ( ENOMEM ) : {
-            return StandardException(LOC,MemoryError,"Insufficient memory.");
+            return StandardException(loc,MemoryError,"Insufficient memory.");
         }
         case ( EINVAL ) : {
-            return StandardException(LOC,InvalidArgError,"Name was empty (i.e. '/'). Can also be the maximum number of semaphores has already been exceeded.");
+            return StandardException(loc,InvalidArgError,"Name was empty (i.e. '/'). Can also be the maximum number of semaphores has already been exceeded.");
         }
         case ( EMFILE ) : {
-        	return StandardException(LOC,OutOfResourcesError,"This process has already exceeded the number of files/pseudofiles it is permitted to open.");
+        	return StandardException(loc,OutOfResourcesError,"This process has already exceeded the number of files/pseudofiles it is permitted to open.");
 		}
         case ( ENFILE ) : {
-        	return StandardException(LOC,OutOfResourcesError,"This system has already exceeded the number of files/pseudofiles it is permitted to open.");
+        	return StandardException(loc,OutOfResourcesError,"This system has already exceeded the number of files/pseudofiles it is permitted to open.");
 		}
         case ( ENAMETOOLONG ) : {
-        	return StandardException(LOC,InvalidArgError,"The semaphore name was too long.");
+        	return StandardException(loc,InvalidArgError,"The semaphore name was too long.");
 		}
 		default         :
 		{
@@ -222,13 +222,13 @@ ecl::StandardException tryLockSemaphoreException(const char* loc) {
 	int error_result = errno;
     switch ( error_result ) {
         case ( EINTR ) : {
-            return StandardException(LOC,InterruptedError,"Waiting for the semaphore lock was interrupted by a system signal.");
+            return StandardException(loc,InterruptedError,"Waiting for the semaphore lock was interrupted by a system signal.");
         }
         case ( EINVAL ) : {
-            return StandardException(LOC,InvalidArgError,"The semaphore was invalid or the timeout structure specified was invalid.");
+            return StandardException(loc,InvalidArgError,"The semaphore was invalid or the timeout structure specified was invalid.");
         }
         case ( EAGAIN ) : {
-            return StandardException(LOC,BlockingError,"The waiting operation could not be performed without blocking???");
+            return StandardException(loc,BlockingError,"The waiting operation could not be performed without blocking???");
         }
 		default         :
 		{
diff --git a/ecl_ipc/src/lib/shared_memory_pos.cpp b/ecl_ipc/src/lib/shared_memory_pos.cpp
index aa99082..e5d4f7b 100644
--- a/ecl_ipc/src/lib/shared_memory_pos.cpp
+++ b/ecl_ipc/src/lib/shared_memory_pos.cpp
@@ -113,7 +113,7 @@ ecl::StandardException openSharedSectionException(const char* loc) {
 	int error_result = errno;
 	switch (error_result) {
 		case ( EACCES ) : {
-			throw StandardException(LOC,PermissionsError,"Opening shared memory failed - permission denied.");
+			throw StandardException(loc,PermissionsError,"Opening shared memory failed - permission denied.");
 			break;
 		}
 	//            case ( EEXIST ) : { // If using O_EXCL, need this, otherwise no.
@@ -121,15 +121,15 @@ ecl::StandardException openSharedSectionException(const char* loc) {
 	//                break;
 	//            }
 		case ( EMFILE ) : case ( ENFILE ) : {
-			throw StandardException(LOC,OutOfResourcesError,"Opening shared memory failed - too many file connections already open.");
+			throw StandardException(loc,OutOfResourcesError,"Opening shared memory failed - too many file connections already open.");
 			break;
 		}
 		case ( ENOENT ) : case ( ENAMETOOLONG ) : case ( EINVAL ) : {
-			throw StandardException(LOC,InvalidArgError,"Opening shared memory failed - pathname problem.");
+			throw StandardException(loc,InvalidArgError,"Opening shared memory failed - pathname problem.");
 			break;
 		}
 		case ( ENOSYS ) : {
-			throw StandardException(LOC,NotSupportedError,"Opening shared memory failed - kernel system functions are not available (remake the kernel).");
+			throw StandardException(loc,NotSupportedError,"Opening shared memory failed - kernel system functions are not available (remake the kernel).");
 			break;
 		}
 		default         :
@@ -145,31 +145,31 @@ ecl::StandardException memoryMapException(const char* loc) {
 	int error_result = errno;
 	switch (error_result) {
 		case ( EACCES ) : {
-			return StandardException(LOC,PermissionsError,"Shared mapping failed - permission problems (see man mmap).");
+			return StandardException(loc,PermissionsError,"Shared mapping failed - permission problems (see man mmap).");
 		}
 		case ( EAGAIN ) : {
-			return StandardException(LOC,MemoryError,"Shared mapping failed - file locked or too much memory has been locked.");
+			return StandardException(loc,MemoryError,"Shared mapping failed - file locked or too much memory has been locked.");
 		}
 		case ( EBADF  ) : {
-			return StandardException(LOC,InvalidArgError,"Shared mapping failed - not a valid file descriptor (see man mmap).");
+			return StandardException(loc,InvalidArgError,"Shared mapping failed - not a valid file descriptor (see man mmap).");
 		}
 		case ( EINVAL ) : {
-			return StandardException(LOC,InvalidArgError,"Shared mapping failed - start, length or offset were invalid or MAP_PRIVLOCE and MAP_SHARED were either both present or both obso (see man mmap).");
+			return StandardException(loc,InvalidArgError,"Shared mapping failed - start, length or offset were invalid or MAP_PRIVLOCE and MAP_SHARED were either both present or both obso (see man mmap).");
 		}
 		case ( ENFILE ) : {
-			return StandardException(LOC,OutOfResourcesError,"Shared mapping failed - system limit on the total number of open files has been reached (see man mmap).");
+			return StandardException(loc,OutOfResourcesError,"Shared mapping failed - system limit on the total number of open files has been reached (see man mmap).");
 		}
 		case ( ENODEV ) : {
-			return StandardException(LOC,NotSupportedError,"Shared mapping failed - underlying filesystem of the specified file doesn't support memory mapping (see man mmap).");
+			return StandardException(loc,NotSupportedError,"Shared mapping failed - underlying filesystem of the specified file doesn't support memory mapping (see man mmap).");
 		}
 		case ( ENOMEM ) : {
-			return StandardException(LOC,MemoryError,"Shared mapping failed - no mem available, or max mappings exceeded (see man mmap).");
+			return StandardException(loc,MemoryError,"Shared mapping failed - no mem available, or max mappings exceeded (see man mmap).");
 		}
 		case ( EPERM ) : {
-			return StandardException(LOC,PermissionsError,"Shared mapping failed - EPERM (see man mmap).");
+			return StandardException(loc,PermissionsError,"Shared mapping failed - EPERM (see man mmap).");
 		}
 //		case ( ETXBSY ) : {
-//			return StandardException(LOC,"Shared mapping failed.","ETXBSY (see man mmap).");
+//			return StandardException(loc,"Shared mapping failed.","ETXBSY (see man mmap).");
 //			break;
 //		}
 		default         :
-- 
2.43.0


From cd0f5ff300943e64c5506f3489a1a34b7c61f7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:34 +0000
Subject: [PATCH 122/129] fix: devices: a file whose stream cannot be made does
 not keep its descriptor

---
 ecl_devices/src/lib/ofile_pos.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ecl_devices/src/lib/ofile_pos.cpp b/ecl_devices/src/lib/ofile_pos.cpp
index 8c6cf02..1594339 100644
--- a/ecl_devices/src/lib/ofile_pos.cpp
+++ b/ecl_devices/src/lib/ofile_pos.cpp
@@ -91,6 +91,9 @@ bool OFile::open(const std::string &file_name, const WriteMode &write_mode) {
         default : break;
     }
     if ( file == NULL ) {
+        int open_result = errno;
+        ::close(file_descriptor);
+        errno = open_result;
         ecl_throw(devices::open_exception(LOC,file_name));
         error_handler = devices::open_error();
         return false;
-- 
2.43.0


From 067080a386705fc0b2aa4eecfa78a6bf9e9de7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:12 +0000
Subject: [PATCH 123/129] fix: devices: clients opened by different threads do
 not share the address they look up

---
 ecl_devices/src/lib/socket_client_pos.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ecl_devices/src/lib/socket_client_pos.cpp b/ecl_devices/src/lib/socket_client_pos.cpp
index 64d5593..7b92b93 100644
--- a/ecl_devices/src/lib/socket_client_pos.cpp
+++ b/ecl_devices/src/lib/socket_client_pos.cpp
@@ -20,7 +20,9 @@
 
 #include <unistd.h>
 #include <iostream>
-#include <netdb.h> // gethostbyname
+#include <errno.h>
+#include <vector>
+#include <netdb.h> // gethostbyname_r
 #include <ecl/exceptions/standard_exception.hpp>
 #include "../../include/ecl/devices/detail/socket_error_handler_pos.hpp"
 #include "../../include/ecl/devices/detail/socket_exception_handler_pos.hpp"
@@ -89,7 +91,9 @@ bool SocketClient::open( const std::string &host_name, const unsigned int& port_
     /*********************
 	** Hostname
 	**********************/
-    struct hostent *host_entry;
+    struct hostent host_storage;
+    struct hostent *host_entry = NULL;
+    std::vector<char> host_buffer(1024); // unlike gethostbyname's, not shared with other threads
     /******************************************
      * struct hostent {
      *   char  *h_name;            //official name of host
@@ -99,7 +103,9 @@ bool SocketClient::open( const std::string &host_name, const unsigned int& port_
      *   char **h_addr_list;       // array of addresses (terminated by NULL)
      * }
      ******************************************/
-    host_entry = gethostbyname(hostname.c_str());
+    while ( gethostbyname_r(hostname.c_str(), &host_storage, &host_buffer[0], host_buffer.size(), &host_entry, &h_errno) == ERANGE ) {
+        host_buffer.resize(2*host_buffer.size());
+    }
     if ( host_entry == NULL ) { // gethostbyname doesn't seem to be checking hostname validity???
     	close();
     	ecl_throw(devices::gethostbyname_exception(LOC,hostname));
-- 
2.43.0


From 1d98da08a5e28d32c4bbbb161f2e77302bdcce25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:13 +0000
Subject: [PATCH 124/129] fix: command_line: the text of an exception stays its
 own

---
 .../include/ecl/command_line/arg_exception.hpp       | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ecl_command_line/include/ecl/command_line/arg_exception.hpp b/ecl_command_line/include/ecl/command_line/arg_exception.hpp
index 3174b17..3780c7f 100644
--- a/ecl_command_line/include/ecl/command_line/arg_exception.hpp
+++ b/ecl_command_line/include/ecl/command_line/arg_exception.hpp
@@ -44,7 +44,8 @@ class ArgException : public std::exception
 			: std::exception(),
 			  _errorText(text),
 			  _argId( id ),
-			  _typeDescription(td)
+			  _typeDescription(td),
+			  _what( id + " -- " + text )
 		{ }
 
 		/**
@@ -73,9 +74,7 @@ class ArgException : public std::exception
 		 */
 		const char* what() const throw()
 		{
-			static std::string ex;
-			ex = _argId + " -- " + _errorText;
-			return ex.c_str();
+			return _what.c_str();
 		}
 
 		/**
@@ -106,6 +105,11 @@ class ArgException : public std::exception
 		 */
 		std::string _typeDescription;
 
+		/**
+		 * Argument id and error text, as returned by what().
+		 */
+		std::string _what;
+
 };
 
 /**
-- 
2.43.0


From 37994f8e7becc0988ac1f56097a2cf28bbbfcbb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:45 +0000
Subject: [PATCH 125/129] fix: streams: the socket streams are there when their
 header comes first

---
 ecl_streams/include/ecl/streams/socket_streams.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ecl_streams/include/ecl/streams/socket_streams.hpp b/ecl_streams/include/ecl/streams/socket_streams.hpp
index 012e6b0..ebc6377 100644
--- a/ecl_streams/include/ecl/streams/socket_streams.hpp
+++ b/ecl_streams/include/ecl/streams/socket_streams.hpp
@@ -14,6 +14,7 @@
 #ifndef ECL_STREAMS_SOCKET_STREAMS_HPP_
 #define ECL_STREAMS_SOCKET_STREAMS_HPP_
 
+#include <ecl/config/ecl.hpp>
 #ifdef ECL_IS_POSIX
 
 /*****************************************************************************
-- 
2.43.0


From 8a854348f8da6ae98d9e4cef1bc4b677258cc235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:16 +0000
Subject: [PATCH 126/129] fix: devices: a socket asked to read nothing does not
 take its peer for gone

---
 ecl_devices/src/lib/socket_client_pos.cpp | 8 ++++++++
 ecl_devices/src/lib/socket_server_pos.cpp | 9 +++++++++
 2 files changed, 17 insertions(+)

diff --git a/ecl_devices/src/lib/socket_client_pos.cpp b/ecl_devices/src/lib/socket_client_pos.cpp
index 7b92b93..00c0602 100644
--- a/ecl_devices/src/lib/socket_client_pos.cpp
+++ b/ecl_devices/src/lib/socket_client_pos.cpp
@@ -150,6 +150,10 @@ long SocketClient::read(char *s, const unsigned long &n) {
     if ( !open() ) {
     	return ConnectionDisconnected;
     }
+    if ( n == 0 ) { // nothing asked for, recv would tell the same as for a peer that has gone
+    	error_handler = NoError;
+    	return 0;
+    }
 
     /*********************
      * Check Status
@@ -186,6 +190,10 @@ long SocketClient::peek(char *s, const unsigned long &n) {
 
     if ( !open() ) { return ConnectionDisconnected; }
 
+	if ( n == 0 ) {
+		error_handler = NoError;
+		return 0;
+	}
 	int bytes_read = ::recv(socket_fd, s, n, MSG_PEEK);
     if ( bytes_read < 0 ) {
     	ecl_debug_throw( devices::receive_exception(LOC) );
diff --git a/ecl_devices/src/lib/socket_server_pos.cpp b/ecl_devices/src/lib/socket_server_pos.cpp
index 3d91090..786c1c3 100644
--- a/ecl_devices/src/lib/socket_server_pos.cpp
+++ b/ecl_devices/src/lib/socket_server_pos.cpp
@@ -147,6 +147,11 @@ long SocketServer::read(char *s, const unsigned long &n) {
 
 	if ( !open() || ( client_socket_fd == -1 ) ) { return ConnectionDisconnected; }
 
+	if ( n == 0 ) { // nothing asked for, recv would tell the same as for a peer that has gone
+		error_handler = NoError;
+		return 0;
+	}
+
     int bytes_read = ::recv(client_socket_fd, s, n, 0);
     if ( bytes_read < 0 ) {
     	if ( errno == ECONNRESET ) {
@@ -171,6 +176,10 @@ long SocketServer::peek(char *s, const unsigned long &n) {
 
 	if ( !open() || ( client_socket_fd == -1 ) ) { return ConnectionDisconnected; }
 
+	if ( n == 0 ) {
+		error_handler = NoError;
+		return 0;
+	}
 	int bytes_read = ::recv(client_socket_fd, s, n, MSG_PEEK);
     if ( bytes_read < 0 ) {
     	ecl_debug_throw(devices::receive_exception(LOC));
-- 
2.43.0


From c05dc948364194df65d67f8fcb594a6ed070154f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:56 +0000
Subject: [PATCH 127/129] fix: geometry: print the whole of tension functions
 that are not curved at their end

---
 ecl_geometry/include/ecl/geometry/tension_function.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ecl_geometry/include/ecl/geometry/tension_function.hpp b/ecl_geometry/include/ecl/geometry/tension_function.hpp
index 6a0b309..871d5fd 100644
--- a/ecl_geometry/include/ecl/geometry/tension_function.hpp
+++ b/ecl_geometry/include/ecl/geometry/tension_function.hpp
@@ -233,13 +233,17 @@ OutputStream& operator << (OutputStream &ostream, const TensionFunction &functio
         ostream << "{";
         if ( function.z_0 != 0.0 ) {
             ostream << format(function.z_0) << "*sinh[tau(";
-            ostream << format(function.x_f) << "-x)] + ";
+            ostream << format(function.x_f) << "-x)]";
+        }
+        if ( ( function.z_0 != 0.0 ) && ( function.z_f != 0.0 ) ) {
+            ostream << " + ";
         }
         if ( function.z_f != 0.0 ) {
             ostream << format(function.z_f) << "*sinh[tau(x-";
-            ostream << format(function.x_0) << ")]}/[tau^2 sinh(";
-            ostream << format(function.x_f - function.x_0) << "*tau)]";
+            ostream << format(function.x_0) << ")]";
         }
+        ostream << "}/[tau^2 sinh(";
+        ostream << format(function.x_f - function.x_0) << "*tau)]";
     }
     ostream << "\n";
     ostream << "        + (";
-- 
2.43.0


From b29e1610ef0fbb176795c4db128a7b9c04084282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:48 +0000
Subject: [PATCH 128/129] fix: devices: let string devices take blocks of 2
 gigabytes and more

---
 ecl_devices/include/ecl/devices/string.hpp | 2 +-
 ecl_devices/src/lib/string.cpp             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecl_devices/include/ecl/devices/string.hpp b/ecl_devices/include/ecl/devices/string.hpp
index 50597a5..84561ba 100644
--- a/ecl_devices/include/ecl/devices/string.hpp
+++ b/ecl_devices/include/ecl/devices/string.hpp
@@ -219,7 +219,7 @@ private:
 	 *
 	 * @param no_bytes : the number of bytes to grow by.
 	 */
-	void grow(int no_bytes = 256);
+	void grow(unsigned long no_bytes = 256);
 
 };
 
diff --git a/ecl_devices/src/lib/string.cpp b/ecl_devices/src/lib/string.cpp
index 6836e5a..da012fe 100644
--- a/ecl_devices/src/lib/string.cpp
+++ b/ecl_devices/src/lib/string.cpp
@@ -64,7 +64,7 @@ std::string String::str() {
     return s;
 }
 
-void String::grow(int no_bytes) {
+void String::grow(unsigned long no_bytes) {
     char* new_buffer;
     unsigned long cur_pos = buffer_cur_read - buffer;
     unsigned long cur_end = buffer_cur_write - buffer;
-- 
2.43.0


From 049b34bb1ba55f969751878becced11208aae1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:17:50 +0000
Subject: [PATCH 129/129] fix: containers: one-off precisions asked for twice
 do not become permanent

---
 ecl_containers/include/ecl/containers/common/formatters.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecl_containers/include/ecl/containers/common/formatters.hpp b/ecl_containers/include/ecl/containers/common/formatters.hpp
index daf6537..9b9ff21 100644
--- a/ecl_containers/include/ecl/containers/common/formatters.hpp
+++ b/ecl_containers/include/ecl/containers/common/formatters.hpp
@@ -151,7 +151,7 @@ class ECL_LOCAL FloatContainerFormatter {
         FloatContainerFormatter& operator()(Container &c, const unsigned int p, const int w) {
             container = &c;
             ready_to_format = true;
-            old_precision = format.precision();
+            if ( old_precision == -1 ) { old_precision = format.precision(); } // keep the permanent one, even if asked twice
             format.precision(p);
             tmp_width = w;
             temporary_width = true;
-- 
2.43.0

