From 92e05e56bc33ea82369b24cc965238bcb980d1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:34 +0000
Subject: [PATCH 01/35] fix: ReadFile continues a short read after the bytes
 already read and stops at end of file

---
 Code/Json4C4/C4Json.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 4181333..7f10927 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -400,9 +400,9 @@ namespace C4
 
             while ( p != end )
             {
-                int numberOfBytesRead = read( this->fileDescriptor, buffer, end - p );
+                int numberOfBytesRead = read( this->fileDescriptor, p, end - p );
 
-                if ( numberOfBytesRead == -1 )
+                if ( numberOfBytesRead <= 0 )
                 {
                     return kFileReadError;
                 }
-- 
2.43.0


From 07ef43b714dc6b817e610fd60d0ce602ca21a1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:34 +0000
Subject: [PATCH 02/35] fix: truncate an existing file before writing to it

---
 Code/Json4C4/C4Json.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 7f10927..1b4202c 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -269,7 +269,7 @@ namespace C4
                 return kFileOkay;
             }
 
-            int fd = open( fileName, O_WRONLY | O_CREAT, 0644 );
+            int fd = open( fileName, O_WRONLY | O_CREAT | O_TRUNC, 0644 );
 
             if ( fd == -1 )
             {
-- 
2.43.0


From e9bb203e42c6830b4160b6c10bf641c4acea9301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:34 +0000
Subject: [PATCH 03/35] fix: add the missing message for KFileTooLarge to the
 status table

---
 Code/Json4C4/C4Json.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 1b4202c..a4effe4 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -502,6 +502,7 @@ namespace C4
         static const char* const StatusString[] = { "Ok",
                                                     "Could not open file",
                                                     "Could not read file",
+                                                    "File is too large",
                                                     "Invalid JSON text",
                                                     "Unterminated text buffer",
                                                     "Expected opening curly braces",
-- 
2.43.0


From 86cb5dd236e3d1ad6fca6d1090b3644d4c793e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:34 +0000
Subject: [PATCH 04/35] fix: do not truncate the line and column in
 ParseResultToString

---
 Code/Json4C4/C4Json.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index a4effe4..46290bd 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -1847,7 +1847,7 @@ namespace C4
 
             if ( parseResult.errorLine != 0 && parseResult.status != Status::kException )
             {
-                string += String<24>( ". Line: " ) + String<24>( parseResult.errorLine ) + String<24>( ", column: " ) + String<24>( parseResult.errorColumn );
+                string += String<64>( ". Line: " ) + String<24>( parseResult.errorLine ) + String<24>( ", column: " ) + String<24>( parseResult.errorColumn );
             }
 
             return string;
-- 
2.43.0


From 2eac04ab30beef262c4b6572e276f90f124defd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:34 +0000
Subject: [PATCH 05/35] fix: accept DEL (0x7F) in strings, RFC 8259 does not
 restrict it

---
 Code/Json4C4/C4Json.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 46290bd..f9af37d 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -751,7 +751,7 @@ namespace C4
                     break;
                 }
 
-                if ( ( c < 32U ) || ( c == 127U ) )
+                if ( c < 32U )
                 {
                     return ( Status::kStringIllegalChar );
                 }
-- 
2.43.0


From 2d71ce1a1b6c607cb078d667678f5737f61d31a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:34 +0000
Subject: [PATCH 06/35] fix: accept one-character documents

---
 Code/Json4C4/C4Json.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index f9af37d..4ae0b5e 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -1693,7 +1693,7 @@ namespace C4
 
         Status ParseJsonRoot( Value*& jsonRoot, const Array<char>& nullTerminatedCharArray, int32* errorLine, int32* errorColumn ) noexcept
         {
-            if ( nullTerminatedCharArray.GetArrayElementCount() < 3 )
+            if ( nullTerminatedCharArray.GetArrayElementCount() < 2 )
             {
                 return Status::kTextBufferContentsInvalid;
             }
@@ -1786,7 +1786,7 @@ namespace C4
 
         ParseResult StructuredData::Parse( const Array<char>& nullTerminatedTextBuffer ) noexcept
         {
-            if ( nullTerminatedTextBuffer.GetArrayElementCount() < 3 )
+            if ( nullTerminatedTextBuffer.GetArrayElementCount() < 2 )
             {
                 return ParseResult { Status::kTextBufferContentsInvalid, 0, 0 };
             }
-- 
2.43.0


From 8b120f9e4c3e54c3642a170bbce8f3f6edb65df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:34 +0000
Subject: [PATCH 07/35] fix: reject text that follows an embedded NUL character

---
 Code/Json4C4/C4Json.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 4ae0b5e..5be99f8 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -1711,7 +1711,7 @@ namespace C4
             Status status = ParseAnyValue( jsonRoot, text );
 
             text += ComputeWhitespaceLength( text );
-            if ( status == Status::kOk && text[ 0 ] != 0 )
+            if ( status == Status::kOk && text != nullTerminatedCharArray.end() - 1 )
             {
                 status = Status::kExpectedEndOfFile;
             }
-- 
2.43.0


From 4f6d8da73c243b6389f9d84e740b40d10d020388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:34 +0000
Subject: [PATCH 08/35] fix: count leading whitespace in reported error
 positions

---
 Code/Json4C4/C4Json.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 5be99f8..768f5cb 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -1703,11 +1703,10 @@ namespace C4
                 return Status::kUnterminatedTextBuffer;
             }
 
-            const char* text = &nullTerminatedCharArray[ 0 ];
+            const char* start = &nullTerminatedCharArray[ 0 ];
+            const char* text  = start;
             text += ComputeWhitespaceLength( text );
 
-            const char* start = text;
-
             Status status = ParseAnyValue( jsonRoot, text );
 
             text += ComputeWhitespaceLength( text );
-- 
2.43.0


From 9076c939b130d4c9a553339a2d57f9a74edb0e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:34 +0000
Subject: [PATCH 09/35] fix: a repeated member name neither leaks its value nor
 is written twice

---
 Code/Json4C4/C4Json.cpp | 11 ++++++++++-
 Code/Json4C4/C4Json.h   |  5 ++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 768f5cb..42e501b 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -1472,6 +1472,11 @@ namespace C4
 
         bool ObjectValue::InsertAccountedMapElement( Value* element )
         {
+            if ( this->FindMapElement( element->name ) )
+            {
+                return false;
+            }
+
             insertionOrder.AppendArrayElement( element->name );
 
             return this->InsertMapElement( element );
@@ -1532,13 +1537,17 @@ namespace C4
                     [ & ]()
                     {
                         jsonValue->name = name.data;
-                        jsonObject->InsertAccountedMapElement( jsonValue );
+                        if ( !jsonObject->InsertAccountedMapElement( jsonValue ) )
+                        {
+                            delete jsonValue;
+                        }
 
                         return Status::kOk;
                     } );
 
                 if ( status != Status::kOk )
                 {
+                    delete jsonValue;
                     return status;
                 }
 
diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index 6d6f4c6..ad29fad 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -697,7 +697,10 @@ namespace C4
                         associateValue->name = name;
                         Serialize( associateValue, data );
 
-                        objectValue->InsertAccountedMapElement( associateValue );
+                        if ( !objectValue->InsertAccountedMapElement( associateValue ) )
+                        {
+                            delete associateValue;
+                        }
 
                         return Status::kOk;
                     } );
-- 
2.43.0


From 9ffd9ae55f42f7cb959c8fc399cf426b6bb305d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:34 +0000
Subject: [PATCH 10/35] fix: named Serialize reports the failure of the nested
 Serialize

---
 Code/Json4C4/C4Json.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index ad29fad..1298366 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -695,7 +695,12 @@ namespace C4
                     {
                         associateValue       = Detail::CreateValueFor( data );
                         associateValue->name = name;
-                        Serialize( associateValue, data );
+                        Status serializeStatus = Serialize( associateValue, data );
+
+                        if ( serializeStatus != Status::kOk )
+                        {
+                            return serializeStatus;
+                        }
 
                         if ( !objectValue->InsertAccountedMapElement( associateValue ) )
                         {
-- 
2.43.0


From 35a6a70d8786853f754144f676d06cbbb8a1635d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:34 +0000
Subject: [PATCH 11/35] fix: release a parsed array element when appending it
 fails

---
 Code/Json4C4/C4Json.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 42e501b..fc72231 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -1397,6 +1397,7 @@ namespace C4
 
                 if ( status != Status::kOk )
                 {
+                    delete jsonValue;
                     return status;
                 }
 
-- 
2.43.0


From 674b9a4c6f60f7ef8dd117c23f343582d35f269a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:20 +0000
Subject: [PATCH 12/35] fix: accept exactly the JSON number grammar

---
 Code/Json4C4/C4Json.cpp | 61 ++++++++++++++++++++++++++++++++++-------
 1 file changed, 51 insertions(+), 10 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index fc72231..84ccf66 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -623,12 +623,60 @@ namespace C4
 
         int32 ComputeFloatLiteralLength( const char* text ) noexcept
         {
+            // Returns the length of an unsigned JSON number, or zero if there is none.
+
             const uint8* byte = reinterpret_cast<const uint8*>( text );
 
-            while ( byte[ 0 ] != 0 && ( ( byte[ 0 ] >= '0' && byte[ 0 ] <= '9' ) || ( byte[ 0 ] == '.' ) || ( byte[ 0 ] == 'e' ) || ( byte[ 0 ] == 'E' ) ||
-                                        ( byte[ 0 ] == '+' ) || ( byte[ 0 ] == '-' ) ) )
+            if ( !( byte[ 0 ] >= '0' && byte[ 0 ] <= '9' ) )
+            {
+                return 0;
+            }
+
+            if ( byte[ 0 ] == '0' )
+            {
+                byte++;
+            }
+            else
+            {
+                while ( byte[ 0 ] >= '0' && byte[ 0 ] <= '9' )
+                {
+                    byte++;
+                }
+            }
+
+            if ( byte[ 0 ] == '.' )
             {
                 byte++;
+
+                if ( !( byte[ 0 ] >= '0' && byte[ 0 ] <= '9' ) )
+                {
+                    return 0;
+                }
+
+                while ( byte[ 0 ] >= '0' && byte[ 0 ] <= '9' )
+                {
+                    byte++;
+                }
+            }
+
+            if ( byte[ 0 ] == 'e' || byte[ 0 ] == 'E' )
+            {
+                byte++;
+
+                if ( byte[ 0 ] == '+' || byte[ 0 ] == '-' )
+                {
+                    byte++;
+                }
+
+                if ( !( byte[ 0 ] >= '0' && byte[ 0 ] <= '9' ) )
+                {
+                    return 0;
+                }
+
+                while ( byte[ 0 ] >= '0' && byte[ 0 ] <= '9' )
+                {
+                    byte++;
+                }
             }
 
             return int32( reinterpret_cast<const char*>( byte ) - text );
@@ -815,7 +863,7 @@ namespace C4
 
             if ( text[ 0 ] == '0' )
             {
-                if ( *textLength > 1 && text[ 1 ] != '.' )
+                if ( text[ 1 ] >= '0' && text[ 1 ] <= '9' )
                 {
                     return ( Status::kNumbersCannotHaveLeadingZeros );
                 }
@@ -997,16 +1045,9 @@ namespace C4
             if ( c == '-' )
             {
                 text++;
-                text += ComputeWhitespaceLength( text );
                 return ( true );
             }
 
-            if ( c == '+' )
-            {
-                text++;
-                text += ComputeWhitespaceLength( text );
-            }
-
             return ( false );
         }
 
-- 
2.43.0


From 3740e8d5a0c414a3a8a1ed5f3de70ee8e75c0db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:20 +0000
Subject: [PATCH 13/35] fix: combine escaped surrogate pairs into one character

---
 Code/Json4C4/C4Json.cpp | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 84ccf66..f7eef87 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -747,6 +747,35 @@ namespace C4
                     code = ( code << 4 ) | x;
                 }
 
+                int32 textLength = 5;
+
+                if ( code >= 0xD800U && code < 0xDC00U && byte[ 5 ] == '\\' && byte[ 6 ] == 'u' )
+                {
+                    // First half of a surrogate pair. Combine it with the second half if there is one.
+
+                    uint32 low = 0;
+
+                    for ( machine a = 7; a <= 10; a++ )
+                    {
+                        c = byte[ a ] - '0';
+
+                        int32 x = ( c < 55U ) ? hexadecimalCharValue[ c ] : -1;
+                        if ( x < 0 )
+                        {
+                            low = 0;
+                            break;
+                        }
+
+                        low = ( low << 4 ) | x;
+                    }
+
+                    if ( low >= 0xDC00U && low < 0xE000U )
+                    {
+                        code       = 0x010000U + ( ( code - 0xD800U ) << 10 ) + ( low - 0xDC00U );
+                        textLength = 11;
+                    }
+                }
+
                 if ( code != 0 )
                 {
                     if ( string )
@@ -755,10 +784,10 @@ namespace C4
                     }
                     else
                     {
-                        *stringLength = 1 + ( code >= 0x000080 ) + ( code >= 0x000800 );
+                        *stringLength = 1 + ( code >= 0x000080 ) + ( code >= 0x000800 ) + ( code >= 0x010000 );
                     }
 
-                    return ( 5 );
+                    return ( textLength );
                 }
             }
             else
-- 
2.43.0


From 3a09bb7eab91546a323ce9766882ef0f9793c4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:20 +0000
Subject: [PATCH 14/35] fix: report an allocation failure while parsing a value
 as an exception, not as a syntax error

---
 Code/Json4C4/C4Json.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index f7eef87..507f6ca 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -1123,21 +1123,23 @@ namespace C4
             text = start;
 
             status = ParseValue<NumberValue>( value, text );
-            if ( status == Status::kOk || status == Status::kNumbersCannotHaveLeadingZeros )
+            if ( status == Status::kOk || status == Status::kNumbersCannotHaveLeadingZeros || status == Status::kException )
             {
                 return status;
             }
             text = start;
 
-            if ( ParseValue<BoolValue>( value, text ) == Status::kOk )
+            status = ParseValue<BoolValue>( value, text );
+            if ( status == Status::kOk || status == Status::kException )
             {
-                return Status::kOk;
+                return status;
             }
             text = start;
 
-            if ( ParseValue<NullValue>( value, text ) == Status::kOk )
+            status = ParseValue<NullValue>( value, text );
+            if ( status == Status::kOk || status == Status::kException )
             {
-                return Status::kOk;
+                return status;
             }
             text = start;
 
-- 
2.43.0


From 4cc88b8667fb17c94b4dfdf7a0f70cb0f872b495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:20 +0000
Subject: [PATCH 15/35] fix: StructuredData::Write reports write errors and
 allocation failures

---
 Code/Json4C4/C4Json.cpp | 25 +++++++++++++++++++++----
 Code/Json4C4/C4Json.h   |  3 ++-
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 507f6ca..0862c1b 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -199,7 +199,8 @@ namespace C4
     class File
     {
     private:
-        bool IsReadOnly = false;
+        bool IsReadOnly  = false;
+        bool writeFailed = false;
 
 #    if defined( JSON4C4_WINDOWS )
 
@@ -441,6 +442,8 @@ namespace C4
 
                 if ( !ok )
                 {
+                    writeFailed = true;
+
                     return kFileWriteError;
                 }
 
@@ -462,8 +465,10 @@ namespace C4
             {
                 int numberOfBytesWritten = write( this->fileDescriptor, p, end - p );
 
-                if ( numberOfBytesWritten == -1 )
+                if ( numberOfBytesWritten <= 0 )
                 {
+                    writeFailed = true;
+
                     return kFileWriteError;
                 }
 
@@ -475,6 +480,11 @@ namespace C4
             return kFileOkay;
         }
 
+        bool HasWriteFailed() const
+        {
+            return writeFailed;
+        }
+
         File& operator<<( char c )
         {
             this->WriteFile( &c, 1 );
@@ -525,7 +535,8 @@ namespace C4
                                                     "An expected object value pair was not found",
                                                     "An exception was caught",
                                                     "JSON structured data contains invalid value type",
-                                                    "Could not find requested name of name/value pair" };
+                                                    "Could not find requested name of name/value pair",
+                                                    "Could not write file" };
 
         TERATHON_API String<256> StatusToString( const Status& status ) noexcept
         {
@@ -1902,10 +1913,16 @@ namespace C4
 
             if ( rootJsonValue )
             {
-                Status status = rootJsonValue->Write( file, indentationLength, indentationChar, indentCharArray );
+                Status status =
+                    MayThrow( [ & ]() { return rootJsonValue->Write( file, indentationLength, indentationChar, indentCharArray ); } );
 
                 file.CloseFile();
 
+                if ( status == Status::kOk && file.HasWriteFailed() )
+                {
+                    status = Status::KFileWriteError;
+                }
+
                 return status;
             }
 
diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index 1298366..b7040b1 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -156,7 +156,8 @@ namespace C4
             kMissingObjectElement,
             kException,
             kInvalidValueType,
-            kNameNotPresent
+            kNameNotPresent,
+            KFileWriteError
         };
 
         TERATHON_API String<256> StatusToString( const Status& parseResult ) noexcept;
-- 
2.43.0


From 7815b315a1403b3cb35445564150533dfa9f4ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:20 +0000
Subject: [PATCH 16/35] fix: escape strings and names when writing JSON

---
 Code/Json4C4/C4Json.cpp | 50 ++++++++++++++++++++++++++++++++++++-----
 1 file changed, 45 insertions(+), 5 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 0862c1b..21d1acb 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -620,6 +620,42 @@ namespace C4
             }
         }
 
+        Status WriteStringLiteral( File& file, const char* text )
+        {
+            file << '\"';
+
+            const char* start = text;
+
+            while ( text[ 0 ] != 0 )
+            {
+                const uint32 c = uint8( text[ 0 ] );
+
+                if ( c < 32U || c == '\"' || c == '\\' )
+                {
+                    const char escape[ 6 ] = { '\\', 'u', '0', '0', Text::hexDigit[ c >> 4 ], Text::hexDigit[ c & 15 ] };
+
+                    file.WriteFile( start, text - start );
+                    file.WriteFile( escape, 6 );
+
+                    start = ++text;
+                    continue;
+                }
+
+                const int32 length = Text::ValidateUnicodeChar( text );
+                if ( length == 0 )
+                {
+                    return Status::kStringIllegalChar;
+                }
+
+                text += length;
+            }
+
+            file.WriteFile( start, text - start );
+            file << '\"';
+
+            return Status::kOk;
+        }
+
         int32 ComputeWhitespaceLength( const char* text ) noexcept
         {
             const uint8* byte = reinterpret_cast<const uint8*>( text );
@@ -1237,9 +1273,7 @@ namespace C4
 
             Status Write( File& file, uint32 /*indentationLength*/, const char /*indentationChar*/, Array<char>& /*indentationCharArray*/ ) const override
             {
-                file << '\"' << data << '\"';
-
-                return Status::kOk;
+                return WriteStringLiteral( file, data );
             }
         };
 
@@ -1765,9 +1799,15 @@ namespace C4
 
                 file.WriteFile( indentationCharArray.begin(), indentationCharArray.GetArrayElementCount() );
 
-                file << '"' << value->name << "\" : ";
+                Status status = WriteStringLiteral( file, value->name );
+                if ( status != Status::kOk )
+                {
+                    return status;
+                }
 
-                Status status = value->Write( file, indentationLength, indentationChar, indentationCharArray );
+                file << " : ";
+
+                status = value->Write( file, indentationLength, indentationChar, indentationCharArray );
                 if ( status != Status::kOk )
                 {
                     return status;
-- 
2.43.0


From 7ea4cf378505dc56d8f82ec90cfe93dd12cf059d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:20 +0000
Subject: [PATCH 17/35] fix: refuse to write infinities and NaNs, which JSON
 cannot express

---
 Code/Json4C4/C4Json.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 21d1acb..88a8758 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -1329,6 +1329,13 @@ namespace C4
             Status Write( File& file, uint32 /*indentationLength*/, const char /*indentationChar*/, Array<char>& /*indentationCharArray*/ ) const override
             {
 
+                if ( data - data != 0.0 )
+                {
+                    // JSON cannot represent infinities and NaNs.
+
+                    return Status::kFloatInvalid;
+                }
+
 #ifdef JSON4C4_USE_SYSTEM_DOUBLE_STRING_CONVERSIONS
 
                 constexpr int maxDoubleDigits = 32;
-- 
2.43.0


From b7930df224d7d0bad7a17b6ff43cd403b09c3323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:20 +0000
Subject: [PATCH 18/35] fix: serialized maps keep their member order and
 release the previous members

---
 Code/Json4C4/C4Json.h | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index b7040b1..7c71203 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -494,10 +494,21 @@ namespace C4
             Array<String<>> insertionOrder;
 
         public:
-            using Map<Value>::RemoveAllMapElements;
             using Map<Value>::begin;
             using Map<Value>::end;
 
+            void RemoveAllMapElements()
+            {
+                Map<Value>::RemoveAllMapElements();
+                insertionOrder.ClearArray();
+            }
+
+            void PurgeMap()
+            {
+                Map<Value>::PurgeMap();
+                insertionOrder.ClearArray();
+            }
+
         public:
             static Status Parse( ObjectValue* jsonObjectValue, const char*& text ) noexcept;
 
@@ -1078,7 +1089,7 @@ namespace C4
             return MayThrow(
                 [ & ]()
                 {
-                    objectValue->RemoveAllMapElements();
+                    objectValue->PurgeMap();
 
                     T      temp;
                     Status status;
@@ -1103,7 +1114,7 @@ namespace C4
                             return status;
                         }
 
-                        objectValue->InsertMapElement( elem );
+                        objectValue->InsertAccountedMapElement( elem );
                     }
                     return Status::kOk;
                 } );
@@ -1354,7 +1365,7 @@ namespace C4
             return MayThrow(
                 [ & ]()
                 {
-                    objectValue->RemoveAllMapElements();
+                    objectValue->PurgeMap();
 
                     T      temp;
                     Status status;
@@ -1379,7 +1390,7 @@ namespace C4
                             return status;
                         }
 
-                        objectValue->InsertMapElement( elem );
+                        objectValue->InsertAccountedMapElement( elem );
                     }
 
                     return Status::kOk;
-- 
2.43.0


From cd8a2d6be1b60dc68bcb9f49350846931a4cc0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:20 +0000
Subject: [PATCH 19/35] fix: serialize std::vector as an array, deserialize
 std::vector of types with members

---
 Code/Json4C4/C4Json.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index 7c71203..c109354 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -545,6 +545,16 @@ namespace C4
                 return new ArrayValue;
             }
 
+#ifdef JSON4C4_ENABLE_STD_SUPPORT_INTERNAL
+
+            template <class T>
+            Value* CreateValueFor( const std::vector<T>& ) noexcept( false )
+            {
+                return new ArrayValue;
+            }
+
+#endif
+
             template <>
             TERATHON_API Value* CreateValueFor( const String<>& ) noexcept( false );
 
@@ -1203,7 +1213,7 @@ namespace C4
 
                         if constexpr ( Detail::HasDeserializeMember<T>::Value )
                         {
-                            status = temp->Deserialize( value );
+                            status = temp.Deserialize( value );
                         }
                         else
                         {
-- 
2.43.0


From 7fb277c69b9cae5c374cf7e743f57a913a9b4679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:20 +0000
Subject: [PATCH 20/35] fix: SerializeFrom does not keep a dangling root

---
 Code/Json4C4/C4Json.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index c109354..389f530 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -614,6 +614,7 @@ namespace C4
                 if ( rootJsonValue != nullptr )
                 {
                     delete rootJsonValue;
+                    rootJsonValue = nullptr;
                 }
 
                 Status status = MayThrow(
-- 
2.43.0


From c2e0a41e0dee9e07a944d5fb2fe7355efdeba09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:20 +0000
Subject: [PATCH 21/35] fix: validating or deserializing an empty document
 reports invalid structured data

---
 Code/Json4C4/C4Json.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index 389f530..b671c9b 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -597,6 +597,11 @@ namespace C4
                 return MayThrow(
                     [ & ]()
                     {
+                        if ( !this->GetRootJsonValue() )
+                        {
+                            return Status::kInvalidStructuredData;
+                        }
+
                         if constexpr ( Detail::HasDeserializeMember<T>::Value )
                         {
                             return data.Deserialize( this->GetRootJsonValue() );
@@ -650,6 +655,11 @@ namespace C4
             return MayThrow(
                 [ & ]()
                 {
+                    if ( !sd.GetRootJsonValue() )
+                    {
+                        return Status::kInvalidStructuredData;
+                    }
+
                     if constexpr ( Detail::HasValidateMember<T>::Value )
                     {
                         return data.Validate( sd.GetRootJsonValue() );
-- 
2.43.0


From 658d0c4c181ad3ea9bd78085f919b6e5048e2afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:20 +0000
Subject: [PATCH 22/35] fix: replacing the root element of a map updates the
 root

---
 Code/Terathon/TSMap.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Code/Terathon/TSMap.cpp b/Code/Terathon/TSMap.cpp
index 8c1fcba..b424f3a 100644
--- a/Code/Terathon/TSMap.cpp
+++ b/Code/Terathon/TSMap.cpp
@@ -571,6 +571,10 @@ void MapBase::ReplaceMapElement(MapElementBase *element, MapElementBase *replace
 			super->rightSubnode = replacement;
 		}
 	}
+	else
+	{
+		rootElement = replacement;
+	}
 
 	replacement->superNode = super;
 	replacement->balance = element->balance;
-- 
2.43.0


From 7ffaa81d11378f7a59cdffd1378c7f3a2dc5269a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:20 +0000
Subject: [PATCH 23/35] fix: convert the most negative integers to text
 correctly

---
 Code/Terathon/TSText.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/Code/Terathon/TSText.cpp b/Code/Terathon/TSText.cpp
index b66320b..0501a8b 100644
--- a/Code/Terathon/TSText.cpp
+++ b/Code/Terathon/TSText.cpp
@@ -1168,15 +1168,15 @@ int32 Text::IntegerToString(int32 num, char *text, int32 max)
 	char	c[16];
 
 	bool negative = (num < 0);
-	num = Abs(num) & 0x7FFFFFFF;
+	uint32 magnitude = (negative) ? 0U - uint32(num) : uint32(num);
 
 	machine length = 0;
 	do
 	{
-		int32 p = num % 10;
+		int32 p = magnitude % 10;
 		c[length++] = char(p + 48);
-		num /= 10;
-	} while (num != 0);
+		magnitude /= 10;
+	} while (magnitude != 0);
 
 	machine a = -1;
 	if (negative)
@@ -1214,15 +1214,15 @@ int32 Text::Integer64ToString(int64 num, char *text, int32 max)
 	char	c[32];
 
 	bool negative = (num < 0);
-	num = Abs64(num) & 0x7FFFFFFFFFFFFFFFULL;
+	uint64 magnitude = (negative) ? uint64(0) - uint64(num) : uint64(num);
 
 	machine length = 0;
 	do
 	{
-		int32 p = num % 10;
+		int32 p = magnitude % 10;
 		c[length++] = char(p + 48);
-		num /= 10;
-	} while (num != 0);
+		magnitude /= 10;
+	} while (magnitude != 0);
 
 	machine a = -1;
 	if (negative)
-- 
2.43.0


From 551c8a69998c4196340523359167c1ec52371660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:20 +0000
Subject: [PATCH 24/35] fix: an array stays valid when growing its storage
 fails

---
 Code/Terathon/TSArray.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/Code/Terathon/TSArray.h b/Code/Terathon/TSArray.h
index f9080c5..95a936a 100644
--- a/Code/Terathon/TSArray.h
+++ b/Code/Terathon/TSArray.h
@@ -477,8 +477,8 @@ namespace Terathon
 	template <typename type, int32 baseCount>
 	void Array<type, baseCount>::SetReservedCount(int32 count)
 	{
-		reservedCount = Max(Max(count, 4), reservedCount + Max((reservedCount / 2 + 3) & ~3, baseCount));
-		type *newPointer = reinterpret_cast<type *>(new char[sizeof(type) * reservedCount]);
+		int32 newCount = Max(Max(count, 4), reservedCount + Max((reservedCount / 2 + 3) & ~3, baseCount));
+		type *newPointer = reinterpret_cast<type *>(new char[sizeof(type) * newCount]);
 
 		type *pointer = arrayPointer;
 		for (machine a = 0; a < elementCount; a++)
@@ -494,6 +494,7 @@ namespace Terathon
 			delete[] ptr;
 		}
 
+		reservedCount = newCount;
 		arrayPointer = newPointer;
 	}
 
@@ -787,8 +788,8 @@ namespace Terathon
 	template <typename type>
 	void Array<type, 0>::SetReservedCount(int32 count)
 	{
-		reservedCount = Max(Max(count, 4), reservedCount + Max((reservedCount / 2 + 3) & ~3, 4));
-		type *newPointer = reinterpret_cast<type *>(new char[sizeof(type) * reservedCount]);
+		int32 newCount = Max(Max(count, 4), reservedCount + Max((reservedCount / 2 + 3) & ~3, 4));
+		type *newPointer = reinterpret_cast<type *>(new char[sizeof(type) * newCount]);
 
 		type *pointer = arrayPointer;
 		if (pointer)
@@ -803,6 +804,7 @@ namespace Terathon
 			delete[] reinterpret_cast<char *>(arrayPointer);
 		}
 
+		reservedCount = newCount;
 		arrayPointer = newPointer;
 	}
 
-- 
2.43.0


From 751873ccdea3a8196dfd6278f1f70eb95be897a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:20 +0000
Subject: [PATCH 25/35] fix: shrinking a string into its local storage restores
 the local storage size

---
 Code/Terathon/TSString.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/Code/Terathon/TSString.cpp b/Code/Terathon/TSString.cpp
index 6bf3912..8361995 100644
--- a/Code/Terathon/TSString.cpp
+++ b/Code/Terathon/TSString.cpp
@@ -611,14 +611,13 @@ String<0>& String<0>::SetStringLength(int32 length)
 		if (size != logicalSize)
 		{
 			int32 copyLength = Min(length, logicalSize - 1);
-			logicalSize = size;
 
 			if (size > kStringLocalSize)
 			{
 				if ((size > physicalSize) || (size < physicalSize / 2))
 				{
-					physicalSize = GetPhysicalSize(size);
-					char *newPointer = new char[physicalSize];
+					int32 newSize = GetPhysicalSize(size);
+					char *newPointer = new char[newSize];
 					Text::CopyText(stringPointer, newPointer, copyLength);
 
 					if (stringPointer != localString)
@@ -626,6 +625,7 @@ String<0>& String<0>::SetStringLength(int32 length)
 						delete[] stringPointer;
 					}
 
+					physicalSize = newSize;
 					stringPointer = newPointer;
 				}
 			}
@@ -633,9 +633,11 @@ String<0>& String<0>::SetStringLength(int32 length)
 			{
 				Text::CopyText(stringPointer, localString, copyLength);
 				delete[] stringPointer;
+				physicalSize = kStringLocalSize;
 				stringPointer = localString;
 			}
 
+			logicalSize = size;
 			stringPointer[length] = 0;
 		}
 	}
-- 
2.43.0


From e5adcdbb23b5cc1273415ac2d52f533c4c51b6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:20 +0000
Subject: [PATCH 26/35] fix: a string stays valid when growing its storage
 fails

---
 Code/Terathon/TSString.cpp | 50 +++++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 19 deletions(-)

diff --git a/Code/Terathon/TSString.cpp b/Code/Terathon/TSString.cpp
index 8361995..1f1c6c7 100644
--- a/Code/Terathon/TSString.cpp
+++ b/Code/Terathon/TSString.cpp
@@ -294,18 +294,20 @@ void String<0>::PurgeString(void)
 
 void String<0>::Resize(int32 size)
 {
-	logicalSize = size;
 	if (size > kStringLocalSize)
 	{
 		if ((size > physicalSize) || (size < physicalSize / 2))
 		{
+			int32 newSize = GetPhysicalSize(size);
+			char *newPointer = new char[newSize];
+
 			if (stringPointer != localString)
 			{
 				delete[] stringPointer;
 			}
 
-			physicalSize = GetPhysicalSize(size);
-			stringPointer = new char[physicalSize];
+			physicalSize = newSize;
+			stringPointer = newPointer;
 		}
 	}
 	else
@@ -318,6 +320,8 @@ void String<0>::Resize(int32 size)
 		physicalSize = kStringLocalSize;
 		stringPointer = localString;
 	}
+
+	logicalSize = size;
 }
 
 String<0>& String<0>::Set(const char *s, int32 length)
@@ -443,8 +447,8 @@ String<0>& String<0>::operator +=(const String<>& s)
 		int32 size = logicalSize + length;
 		if (size > physicalSize)
 		{
-			physicalSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
-			char *newPointer = new char[physicalSize];
+			int32 newSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
+			char *newPointer = new char[newSize];
 			Text::CopyText(stringPointer, newPointer);
 
 			if (stringPointer != localString)
@@ -452,6 +456,7 @@ String<0>& String<0>::operator +=(const String<>& s)
 				delete[] stringPointer;
 			}
 
+			physicalSize = newSize;
 			stringPointer = newPointer;
 		}
 
@@ -470,8 +475,8 @@ String<0>& String<0>::operator +=(const char *s)
 		int32 size = logicalSize + length;
 		if (size > physicalSize)
 		{
-			physicalSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
-			char *newPointer = new char[physicalSize];
+			int32 newSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
+			char *newPointer = new char[newSize];
 			Text::CopyText(stringPointer, newPointer);
 
 			if (stringPointer != localString)
@@ -479,6 +484,7 @@ String<0>& String<0>::operator +=(const char *s)
 				delete[] stringPointer;
 			}
 
+			physicalSize = newSize;
 			stringPointer = newPointer;
 		}
 
@@ -494,8 +500,8 @@ String<0>& String<0>::operator +=(char k)
 	int32 size = logicalSize + 1;
 	if (size > physicalSize)
 	{
-		physicalSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
-		char *newPointer = new char[physicalSize];
+		int32 newSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
+		char *newPointer = new char[newSize];
 		Text::CopyText(stringPointer, newPointer);
 
 		if (stringPointer != localString)
@@ -503,6 +509,7 @@ String<0>& String<0>::operator +=(char k)
 			delete[] stringPointer;
 		}
 
+		physicalSize = newSize;
 		stringPointer = newPointer;
 	}
 
@@ -517,8 +524,8 @@ String<0>& String<0>::operator +=(int32 n)
 	int32 size = logicalSize + kStringAllocSize;
 	if (size > physicalSize)
 	{
-		physicalSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
-		char *newPointer = new char[physicalSize];
+		int32 newSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
+		char *newPointer = new char[newSize];
 		Text::CopyText(stringPointer, newPointer);
 
 		if (stringPointer != localString)
@@ -526,6 +533,7 @@ String<0>& String<0>::operator +=(int32 n)
 			delete[] stringPointer;
 		}
 
+		physicalSize = newSize;
 		stringPointer = newPointer;
 	}
 
@@ -538,8 +546,8 @@ String<0>& String<0>::operator +=(uint32 n)
 	int32 size = logicalSize + kStringAllocSize;
 	if (size > physicalSize)
 	{
-		physicalSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
-		char *newPointer = new char[physicalSize];
+		int32 newSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
+		char *newPointer = new char[newSize];
 		Text::CopyText(stringPointer, newPointer);
 
 		if (stringPointer != localString)
@@ -547,6 +555,7 @@ String<0>& String<0>::operator +=(uint32 n)
 			delete[] stringPointer;
 		}
 
+		physicalSize = newSize;
 		stringPointer = newPointer;
 	}
 
@@ -559,8 +568,8 @@ String<0>& String<0>::operator +=(int64 n)
 	int32 size = logicalSize + kStringAllocSize;
 	if (size > physicalSize)
 	{
-		physicalSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
-		char *newPointer = new char[physicalSize];
+		int32 newSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
+		char *newPointer = new char[newSize];
 		Text::CopyText(stringPointer, newPointer);
 
 		if (stringPointer != localString)
@@ -568,6 +577,7 @@ String<0>& String<0>::operator +=(int64 n)
 			delete[] stringPointer;
 		}
 
+		physicalSize = newSize;
 		stringPointer = newPointer;
 	}
 
@@ -580,8 +590,8 @@ String<0>& String<0>::operator +=(uint64 n)
 	int32 size = logicalSize + kStringAllocSize;
 	if (size > physicalSize)
 	{
-		physicalSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
-		char *newPointer = new char[physicalSize];
+		int32 newSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
+		char *newPointer = new char[newSize];
 		Text::CopyText(stringPointer, newPointer);
 
 		if (stringPointer != localString)
@@ -589,6 +599,7 @@ String<0>& String<0>::operator +=(uint64 n)
 			delete[] stringPointer;
 		}
 
+		physicalSize = newSize;
 		stringPointer = newPointer;
 	}
 
@@ -661,8 +672,8 @@ String<0>& String<0>::AppendString(const char *s, int32 length)
 		int32 size = logicalSize + length;
 		if (size > physicalSize)
 		{
-			physicalSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
-			char *newPointer = new char[physicalSize];
+			int32 newSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
+			char *newPointer = new char[newSize];
 			Text::CopyText(stringPointer, newPointer);
 
 			if (stringPointer != localString)
@@ -670,6 +681,7 @@ String<0>& String<0>::AppendString(const char *s, int32 length)
 				delete[] stringPointer;
 			}
 
+			physicalSize = newSize;
 			stringPointer = newPointer;
 		}
 
-- 
2.43.0


From e59adc35ac87263ee9d88915d1a60a03a5ee3d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:52 +0000
Subject: [PATCH 27/35] fix: assigning or appending a string to itself keeps
 its contents

---
 Code/Terathon/TSString.cpp | 62 +++++++++++++++++---------------------
 1 file changed, 28 insertions(+), 34 deletions(-)

diff --git a/Code/Terathon/TSString.cpp b/Code/Terathon/TSString.cpp
index 1f1c6c7..b3a19f9 100644
--- a/Code/Terathon/TSString.cpp
+++ b/Code/Terathon/TSString.cpp
@@ -326,30 +326,16 @@ void String<0>::Resize(int32 size)
 
 String<0>& String<0>::Set(const char *s, int32 length)
 {
-	for (machine a = 0; a < length; a++)
-	{
-		if (s[a] == 0)
-		{
-			length = int32(a);
-			break;
-		}
-	}
-
-	if (length > 0)
-	{
-		Resize(length + 1);
-		Text::CopyText(s, stringPointer, length);
-	}
-	else
-	{
-		PurgeString();
-	}
-
-	return (*this);
+	return (*this = String(s, length));
 }
 
 String<0>& String<0>::operator =(String&& s) noexcept
 {
+	if (this == &s)
+	{
+		return (*this);
+	}
+
 	if (stringPointer != localString)
 	{
 		delete[] stringPointer;
@@ -381,6 +367,11 @@ String<0>& String<0>::operator =(String&& s) noexcept
 
 String<0>& String<0>::operator =(const String& s)
 {
+	if (this == &s)
+	{
+		return (*this);
+	}
+
 	int32 size = s.logicalSize;
 	if (size > 1)
 	{
@@ -397,18 +388,9 @@ String<0>& String<0>::operator =(const String& s)
 
 String<0>& String<0>::operator =(const char *s)
 {
-	int32 length = Text::GetTextLength(s);
-	if (length > 0)
-	{
-		Resize(length + 1);
-		Text::CopyText(s, stringPointer);
-	}
-	else
-	{
-		PurgeString();
-	}
+	// The text may be part of this string, so it is copied before the storage is changed.
 
-	return (*this);
+	return (*this = String(s));
 }
 
 String<0>& String<0>::operator =(int32 n)
@@ -450,6 +432,7 @@ String<0>& String<0>::operator +=(const String<>& s)
 			int32 newSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
 			char *newPointer = new char[newSize];
 			Text::CopyText(stringPointer, newPointer);
+			Text::CopyText(s, newPointer + logicalSize - 1, length);
 
 			if (stringPointer != localString)
 			{
@@ -459,8 +442,11 @@ String<0>& String<0>::operator +=(const String<>& s)
 			physicalSize = newSize;
 			stringPointer = newPointer;
 		}
+		else
+		{
+			Text::CopyText(s, stringPointer + logicalSize - 1, length);
+		}
 
-		Text::CopyText(s, stringPointer + logicalSize - 1);
 		logicalSize = size;
 	}
 
@@ -478,6 +464,7 @@ String<0>& String<0>::operator +=(const char *s)
 			int32 newSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
 			char *newPointer = new char[newSize];
 			Text::CopyText(stringPointer, newPointer);
+			Text::CopyText(s, newPointer + logicalSize - 1, length);
 
 			if (stringPointer != localString)
 			{
@@ -487,8 +474,11 @@ String<0>& String<0>::operator +=(const char *s)
 			physicalSize = newSize;
 			stringPointer = newPointer;
 		}
+		else
+		{
+			Text::CopyText(s, stringPointer + logicalSize - 1, length);
+		}
 
-		Text::CopyText(s, stringPointer + logicalSize - 1);
 		logicalSize = size;
 	}
 
@@ -675,6 +665,7 @@ String<0>& String<0>::AppendString(const char *s, int32 length)
 			int32 newSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
 			char *newPointer = new char[newSize];
 			Text::CopyText(stringPointer, newPointer);
+			Text::CopyText(s, newPointer + logicalSize - 1, length);
 
 			if (stringPointer != localString)
 			{
@@ -684,8 +675,11 @@ String<0>& String<0>::AppendString(const char *s, int32 length)
 			physicalSize = newSize;
 			stringPointer = newPointer;
 		}
+		else
+		{
+			Text::CopyText(s, stringPointer + logicalSize - 1, length);
+		}
 
-		Text::CopyText(s, stringPointer + logicalSize - 1, length);
 		logicalSize = size;
 	}
 
-- 
2.43.0


From ab59eaa872fe07792beec76d5b03bd2a832515a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:52 +0000
Subject: [PATCH 28/35] fix: EncodeEscapeSequences counts the terminator in the
 string size

---
 Code/Terathon/TSString.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Code/Terathon/TSString.cpp b/Code/Terathon/TSString.cpp
index b3a19f9..63e3500 100644
--- a/Code/Terathon/TSString.cpp
+++ b/Code/Terathon/TSString.cpp
@@ -791,9 +791,10 @@ String<0>& String<0>::EncodeEscapeSequences(void)
 
 	if (maxCharSize > 1)
 	{
-		logicalSize = encodedLength;
-		physicalSize = GetPhysicalSize(encodedLength);
-		char *encodedString = new char[physicalSize];
+		int32 newSize = GetPhysicalSize(encodedLength);
+		char *encodedString = new char[newSize];
+		logicalSize = encodedLength + 1;
+		physicalSize = newSize;
 
 		byte = reinterpret_cast<uint8 *>(stringPointer);
 		uint8 *encodedByte = reinterpret_cast<uint8 *>(encodedString);
-- 
2.43.0


From e7487ea00e0d9594d308dbf0256478dffca7b30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:52 +0000
Subject: [PATCH 29/35] fix: release a map element when naming or inserting it
 fails

---
 Code/Json4C4/C4Json.h | 37 +++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index b671c9b..0fac1ca 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -1045,16 +1045,16 @@ namespace C4
                             status = MayThrow(
                                 [ & ]()
                                 {
-                                    dataMapElement = new DataMapElementType;
+                                    dataMapElement       = new DataMapElementType;
+                                    dataMapElement->name = key;
                                     return Status::kOk;
                                 } );
 
                             if ( status != Status::kOk )
                             {
+                                delete dataMapElement;
                                 return status;
                             }
-
-                            dataMapElement->name = key;
                         }
 
                         if constexpr ( Detail::HasDeserializeMember<T>::Value )
@@ -1118,7 +1118,6 @@ namespace C4
                     for ( const auto* dataMapElement : data )
                     {
                         Value* elem = Detail::CreateValueFor( temp );
-                        elem->name  = dataMapElement->name;
 
                         if constexpr ( Detail::HasSerializeMember<T>::Value )
                         {
@@ -1129,13 +1128,22 @@ namespace C4
                             status = Serialize( elem, dataMapElement->data );
                         }
 
+                        if ( status == Status::kOk )
+                        {
+                            status = MayThrow(
+                                [ & ]()
+                                {
+                                    elem->name = dataMapElement->name;
+                                    objectValue->InsertAccountedMapElement( elem );
+                                    return Status::kOk;
+                                } );
+                        }
+
                         if ( status != Status::kOk )
                         {
                             delete elem;
                             return status;
                         }
-
-                        objectValue->InsertAccountedMapElement( elem );
                     }
                     return Status::kOk;
                 } );
@@ -1393,8 +1401,8 @@ namespace C4
 
                     for ( auto const& [ dataMapElementKey, dataMapElementData ] : data )
                     {
-                        Value* elem = Detail::CreateValueFor( temp );
-                        elem->name  = dataMapElementKey.c_str();
+                        const char* elementName = dataMapElementKey.c_str();
+                        Value*      elem        = Detail::CreateValueFor( temp );
 
                         if constexpr ( Detail::HasSerializeMember<T>::Value )
                         {
@@ -1405,13 +1413,22 @@ namespace C4
                             status = Serialize( elem, dataMapElementData );
                         }
 
+                        if ( status == Status::kOk )
+                        {
+                            status = MayThrow(
+                                [ & ]()
+                                {
+                                    elem->name = elementName;
+                                    objectValue->InsertAccountedMapElement( elem );
+                                    return Status::kOk;
+                                } );
+                        }
+
                         if ( status != Status::kOk )
                         {
                             delete elem;
                             return status;
                         }
-
-                        objectValue->InsertAccountedMapElement( elem );
                     }
 
                     return Status::kOk;
-- 
2.43.0


From 9ca7048442514f8c34acb40ef1e4fa443aa71326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:20 +0000
Subject: [PATCH 30/35] fix: a name missing inside an optional value is still
 reported

---
 Code/Json4C4/C4Json.h | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index 0fac1ca..c284fb3 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -1471,11 +1471,18 @@ namespace C4
         template <class T, class... Args>
         Status ValidateProto( const Value* value, Detail::Optional, const char* name, const T& data, Args&&... args ) noexcept
         {
-            Status status = Validate( value, name, data );
+            const ObjectValue* objectValue = value->AsJsonObjectValue();
+
+            // Only the absence of this name is acceptable. A name missing inside of the named value is still an error.
 
-            if ( status != Status::kOk && status != Status::kNameNotPresent )
+            if ( !objectValue || objectValue->FindMapElement( name ) )
             {
-                return status;
+                Status status = Validate( value, name, data );
+
+                if ( status != Status::kOk )
+                {
+                    return status;
+                }
             }
 
             return ValidateProto( value, Detail::Forward<Args>( args )... );
@@ -1515,11 +1522,18 @@ namespace C4
         template <class T, class... Args>
         Status DeserializeProto( const Value* value, Detail::Optional, const char* name, T& data, Args&&... args ) noexcept
         {
-            Status status = Deserialize( value, name, data );
+            const ObjectValue* objectValue = value->AsJsonObjectValue();
+
+            // Only the absence of this name is acceptable. A name missing inside of the named value is still an error.
 
-            if ( status != Status::kOk && status != Status::kNameNotPresent )
+            if ( !objectValue || objectValue->FindMapElement( name ) )
             {
-                return status;
+                Status status = Deserialize( value, name, data );
+
+                if ( status != Status::kOk )
+                {
+                    return status;
+                }
             }
 
             return DeserializeProto( value, Detail::Forward<Args>( args )... );
-- 
2.43.0


From 47595d11b5c4dbfa3687b16d22765f70950a2266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:20 +0000
Subject: [PATCH 31/35] fix: AppendString counts only the characters it appends

---
 Code/Terathon/TSString.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/Code/Terathon/TSString.cpp b/Code/Terathon/TSString.cpp
index 63e3500..ebd915a 100644
--- a/Code/Terathon/TSString.cpp
+++ b/Code/Terathon/TSString.cpp
@@ -657,6 +657,15 @@ String<0>& String<0>::SetStringLength(int32 length)
 
 String<0>& String<0>::AppendString(const char *s, int32 length)
 {
+	for (machine a = 0; a < length; a++)
+	{
+		if (s[a] == 0)
+		{
+			length = int32(a);
+			break;
+		}
+	}
+
 	if (length > 0)
 	{
 		int32 size = logicalSize + length;
-- 
2.43.0


From ebaffbec55ab55cc2bfc1e9ad3f40401d61086ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:06 +0000
Subject: [PATCH 32/35] fix: moving a shrunken inline array releases its heap
 storage

---
 Code/Terathon/TSArray.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Code/Terathon/TSArray.h b/Code/Terathon/TSArray.h
index 95a936a..a7cd9a5 100644
--- a/Code/Terathon/TSArray.h
+++ b/Code/Terathon/TSArray.h
@@ -419,6 +419,12 @@ namespace Terathon
 				new(&arrayPointer[a]) type(static_cast<type&&>(pointer[a]));
 				pointer[a].~type();
 			}
+
+			char *ptr = reinterpret_cast<char *>(pointer);
+			if (ptr != array.arrayStorage)
+			{
+				delete[] ptr;
+			}
 		}
 
 		array.elementCount = 0;
-- 
2.43.0


From 475a65b394d829ecd1747e25a4af6f848d93ae25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:03 +0000
Subject: [PATCH 33/35] fix: convert unsigned integers above the signed range
 to text correctly

---
 Code/Terathon/TSString.cpp | 10 +++++-----
 Code/Terathon/TSString.h   |  8 ++++----
 Code/Terathon/TSText.cpp   | 30 ++++++++++++++++++++++++++++++
 Code/Terathon/TSText.h     |  1 +
 4 files changed, 40 insertions(+), 9 deletions(-)

diff --git a/Code/Terathon/TSString.cpp b/Code/Terathon/TSString.cpp
index ebd915a..ad6201a 100644
--- a/Code/Terathon/TSString.cpp
+++ b/Code/Terathon/TSString.cpp
@@ -197,7 +197,7 @@ String<0>::String(uint32 n)
 {
 	physicalSize = kStringLocalSize;
 	stringPointer = localString;
-	logicalSize = Text::IntegerToString(n, localString, kStringLocalSize - 1) + 1;
+	logicalSize = Text::UnsignedInteger64ToString(n, localString, kStringLocalSize - 1) + 1;
 }
 
 String<0>::String(int64 n)
@@ -265,7 +265,7 @@ String<0>::String(uint32 n, const char *s1)
 	physicalSize = GetPhysicalSize(size);
 	stringPointer = new char[physicalSize];
 	Text::CopyText(s1, stringPointer);
-	logicalSize = len1 + Text::IntegerToString(n, stringPointer + len1, kStringAllocSize - 1) + 1;
+	logicalSize = len1 + Text::UnsignedInteger64ToString(n, stringPointer + len1, kStringAllocSize - 1) + 1;
 }
 
 String<0>::String(int64 n, const char *s1)
@@ -403,7 +403,7 @@ String<0>& String<0>::operator =(int32 n)
 String<0>& String<0>::operator =(uint32 n)
 {
 	Resize(kStringAllocSize);
-	logicalSize = Text::IntegerToString(n, stringPointer, kStringAllocSize - 1) + 1;
+	logicalSize = Text::UnsignedInteger64ToString(n, stringPointer, kStringAllocSize - 1) + 1;
 	return (*this);
 }
 
@@ -549,7 +549,7 @@ String<0>& String<0>::operator +=(uint32 n)
 		stringPointer = newPointer;
 	}
 
-	logicalSize += Text::IntegerToString(n, stringPointer + logicalSize - 1, kStringAllocSize - 1);
+	logicalSize += Text::UnsignedInteger64ToString(n, stringPointer + logicalSize - 1, kStringAllocSize - 1);
 	return (*this);
 }
 
@@ -593,7 +593,7 @@ String<0>& String<0>::operator +=(uint64 n)
 		stringPointer = newPointer;
 	}
 
-	logicalSize += Text::Integer64ToString(n, stringPointer + logicalSize - 1, kStringAllocSize - 1);
+	logicalSize += Text::UnsignedInteger64ToString(n, stringPointer + logicalSize - 1, kStringAllocSize - 1);
 	return (*this);
 }
 
diff --git a/Code/Terathon/TSString.h b/Code/Terathon/TSString.h
index 9f01605..f103ae5 100644
--- a/Code/Terathon/TSString.h
+++ b/Code/Terathon/TSString.h
@@ -191,7 +191,7 @@ namespace Terathon
 
 			explicit String(uint32 n)
 			{
-				Text::IntegerToString(n, c, len);
+				Text::UnsignedInteger64ToString(n, c, len);
 			}
 
 			explicit String(int64 n)
@@ -249,7 +249,7 @@ namespace Terathon
 
 			String& operator =(uint32 n)
 			{
-				Text::IntegerToString(n, c, len);
+				Text::UnsignedInteger64ToString(n, c, len);
 				return (*this);
 			}
 
@@ -294,7 +294,7 @@ namespace Terathon
 			String& operator +=(uint32 n)
 			{
 				int32 l = GetStringLength();
-				Text::IntegerToString(n, &c[l], len - l);
+				Text::UnsignedInteger64ToString(n, &c[l], len - l);
 				return (*this);
 			}
 
@@ -308,7 +308,7 @@ namespace Terathon
 			String& operator +=(uint64 n)
 			{
 				int32 l = GetStringLength();
-				Text::Integer64ToString(n, &c[l], len - l);
+				Text::UnsignedInteger64ToString(n, &c[l], len - l);
 				return (*this);
 			}
 
diff --git a/Code/Terathon/TSText.cpp b/Code/Terathon/TSText.cpp
index 0501a8b..dfddcda 100644
--- a/Code/Terathon/TSText.cpp
+++ b/Code/Terathon/TSText.cpp
@@ -1255,6 +1255,36 @@ int32 Text::Integer64ToString(int64 num, char *text, int32 max)
 	return (int32(a));
 }
 
+int32 Text::UnsignedInteger64ToString(uint64 num, char *text, int32 max)
+{
+	char	c[32];
+
+	machine length = 0;
+	do
+	{
+		int32 p = num % 10;
+		c[length++] = char(p + 48);
+		num /= 10;
+	} while (num != 0);
+
+	machine a = -1;
+	do
+	{
+		if (++a < max)
+		{
+			text[a] = c[--length];
+		}
+		else
+		{
+			text[a] = 0;
+			return (int32(a));
+		}
+	} while (length != 0);
+
+	text[++a] = 0;
+	return (int32(a));
+}
+
 int32 Text::FloatToString(float num, char *text, int32 max)
 {
 	if (max < 1)
diff --git a/Code/Terathon/TSText.h b/Code/Terathon/TSText.h
index d29392f..b749b2c 100644
--- a/Code/Terathon/TSText.h
+++ b/Code/Terathon/TSText.h
@@ -351,6 +351,7 @@ namespace Terathon
 
 		TERATHON_API int32 IntegerToString(int32 num, char *text, int32 max);
 		TERATHON_API int32 Integer64ToString(int64 num, char *text, int32 max);
+		TERATHON_API int32 UnsignedInteger64ToString(uint64 num, char *text, int32 max);
 		TERATHON_API int32 FloatToString(float num, char *text, int32 max);
 
 		TERATHON_API int32 GetResourceNameLength(const char *text);
-- 
2.43.0


From bbc71e345eead7eaa35d4a05684cac00b4c11f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:57 +0000
Subject: [PATCH 34/35] fix: an element of the array itself can be appended,
 inserted or used to fill it

---
 Code/Terathon/TSArray.h | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/Code/Terathon/TSArray.h b/Code/Terathon/TSArray.h
index a7cd9a5..dd2357f 100644
--- a/Code/Terathon/TSArray.h
+++ b/Code/Terathon/TSArray.h
@@ -546,7 +546,12 @@ namespace Terathon
 	{
 		if (count > reservedCount)
 		{
+			// The initial value may be part of this array, so it is copied before the storage is released.
+
+			const type value(init);
 			SetReservedCount(count);
+			SetArrayElementCount(count, value);
+			return;
 		}
 
 		if (count > elementCount)
@@ -590,7 +595,11 @@ namespace Terathon
 	{
 		if (elementCount >= reservedCount)
 		{
+			// The element may be part of this array, so it is copied before the storage is released.
+
+			type value(static_cast<T&&>(element));
 			SetReservedCount(elementCount + 1);
+			return (AppendArrayElement(static_cast<type&&>(value)));
 		}
 
 		type *pointer = arrayPointer + elementCount;
@@ -604,6 +613,10 @@ namespace Terathon
 	template <typename T>
 	void Array<type, baseCount>::InsertArrayElement(int32 index, T&& element)
 	{
+		// The element may be part of this array, so it is copied before any element is moved.
+
+		type value(static_cast<T&&>(element));
+
 		if (index >= elementCount)
 		{
 			int32 count = index + 1;
@@ -618,7 +631,7 @@ namespace Terathon
 				new(++pointer) type;
 			}
 
-			new (++pointer) type(static_cast<T&&>(element));
+			new (++pointer) type(static_cast<type&&>(value));
 			elementCount = count;
 		}
 		else
@@ -636,7 +649,7 @@ namespace Terathon
 				(--pointer)->~type();
 			}
 
-			new (&arrayPointer[index]) type(static_cast<T&&>(element));
+			new (&arrayPointer[index]) type(static_cast<type&&>(value));
 			elementCount = count;
 		}
 	}
@@ -856,7 +869,12 @@ namespace Terathon
 	{
 		if (count > reservedCount)
 		{
+			// The initial value may be part of this array, so it is copied before the storage is released.
+
+			const type value(init);
 			SetReservedCount(count);
+			SetArrayElementCount(count, value);
+			return;
 		}
 
 		if (count > elementCount)
@@ -900,7 +918,11 @@ namespace Terathon
 	{
 		if (elementCount >= reservedCount)
 		{
+			// The element may be part of this array, so it is copied before the storage is released.
+
+			type value(static_cast<T&&>(element));
 			SetReservedCount(elementCount + 1);
+			return (AppendArrayElement(static_cast<type&&>(value)));
 		}
 
 		type *pointer = arrayPointer + elementCount;
@@ -914,6 +936,10 @@ namespace Terathon
 	template <typename T>
 	void Array<type, 0>::InsertArrayElement(int32 index, T&& element)
 	{
+		// The element may be part of this array, so it is copied before any element is moved.
+
+		type value(static_cast<T&&>(element));
+
 		if (index >= elementCount)
 		{
 			int32 count = index + 1;
@@ -928,7 +954,7 @@ namespace Terathon
 				new(++pointer) type;
 			}
 
-			new (++pointer) type(static_cast<T&&>(element));
+			new (++pointer) type(static_cast<type&&>(value));
 			elementCount = count;
 		}
 		else
@@ -946,7 +972,7 @@ namespace Terathon
 				(--pointer)->~type();
 			}
 
-			new (&arrayPointer[index]) type(static_cast<T&&>(element));
+			new (&arrayPointer[index]) type(static_cast<type&&>(value));
 			elementCount = count;
 		}
 	}
-- 
2.43.0


From d85c9f1cba41b4df276cf212bf0cc980a2f7be56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:04 +0000
Subject: [PATCH 35/35] fix: bounded strings append text that is part of
 themselves

---
 Code/Terathon/TSString.h | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/Code/Terathon/TSString.h b/Code/Terathon/TSString.h
index f103ae5..dfdd022 100644
--- a/Code/Terathon/TSString.h
+++ b/Code/Terathon/TSString.h
@@ -267,8 +267,10 @@ namespace Terathon
 
 			String& operator +=(const char *s)
 			{
+				// The text may be part of this string, so its length is determined before the terminator is overwritten.
+
 				int32 l = GetStringLength();
-				Text::CopyText(s, &c[l], len - l);
+				Text::CopyText(s, &c[l], Min(Text::GetTextLength(s), len - l));
 				return (*this);
 			}
 
@@ -386,7 +388,17 @@ namespace Terathon
 			String& AppendString(const char *s, int32 length)
 			{
 				int32 l = GetStringLength();
-				Text::CopyText(s, &c[l], Min(len - l, length));
+				int32 max = Min(len - l, length);
+
+				// The text may be part of this string, so its length is determined before the terminator is overwritten.
+
+				int32 n = 0;
+				while ((n < max) && (s[n] != 0))
+				{
+					n++;
+				}
+
+				Text::CopyText(s, &c[l], n);
 				return (*this);
 			}
 	};
-- 
2.43.0

