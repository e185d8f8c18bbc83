From 5c3b273a4646c7127a793fd46d1cdb5ca08bc939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:06 +0000
Subject: [PATCH 001/105] fix: append outlines to a document that has no
 outlines yet

---
 src/pdfmm/base/PdfDocument.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pdfmm/base/PdfDocument.cpp b/src/pdfmm/base/PdfDocument.cpp
index 2b9d3c1..6a22fe3 100644
--- a/src/pdfmm/base/PdfDocument.cpp
+++ b/src/pdfmm/base/PdfDocument.cpp
@@ -185,6 +185,9 @@ void PdfDocument::append(const PdfDocument& doc, bool appendAll)
         if (appendRoot && appendRoot->First())
         {
             // only append outlines if appended document has outlines
+            if (root == nullptr)
+                root = &this->GetOrCreateOutlines();
+
             while (root && root->Next())
                 root = root->Next();
 
@@ -274,6 +277,9 @@ void PdfDocument::InsertDocumentPageAt(unsigned atIndex, const PdfDocument& doc,
     if (appendRoot != nullptr && appendRoot->First())
     {
         // only append outlines if appended document has outlines
+        if (root == nullptr)
+            root = &this->GetOrCreateOutlines();
+
         while (root != nullptr && root->Next())
             root = root->Next();
 
-- 
2.43.0


From 7f69368ce866ae46c801637898d2fdaf9cf0441b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:06 +0000
Subject: [PATCH 002/105] fix: report missing /Perms, /OE or /UE of an AES-256
 encryption dictionary

---
 src/pdfmm/base/PdfEncrypt.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/base/PdfEncrypt.cpp b/src/pdfmm/base/PdfEncrypt.cpp
index 507a095..cc03d39 100644
--- a/src/pdfmm/base/PdfEncrypt.cpp
+++ b/src/pdfmm/base/PdfEncrypt.cpp
@@ -542,9 +542,9 @@ unique_ptr<PdfEncrypt> PdfEncrypt::CreateFromObject(const PdfObject& encryptObj)
             (rValue == 5 && PdfEncrypt::IsEncryptionEnabled(PdfEncryptAlgorithm::AESV3))
             || (rValue == 6 && PdfEncrypt::IsEncryptionEnabled(PdfEncryptAlgorithm::AESV3R6))))
         {
-            PdfString permsValue = encryptObj.GetDictionary().GetKey("Perms")->GetString();
-            PdfString oeValue = encryptObj.GetDictionary().GetKey("OE")->GetString();
-            PdfString ueValue = encryptObj.GetDictionary().GetKey("UE")->GetString();
+            PdfString permsValue = encryptObj.GetDictionary().MustGetKey("Perms").GetString();
+            PdfString oeValue = encryptObj.GetDictionary().MustGetKey("OE").GetString();
+            PdfString ueValue = encryptObj.GetDictionary().MustGetKey("UE").GetString();
 
             return unique_ptr<PdfEncrypt>(new PdfEncryptAESV3(oValue, oeValue, uValue,
                 ueValue, pValue, permsValue, (PdfAESV3Revision)rValue));
-- 
2.43.0


From 6b098e42021cd9664295f58f1e9d12fb0eed3f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:06 +0000
Subject: [PATCH 003/105] fix: do not dereference a missing descendant font

---
 src/pdfmm/base/PdfFontFactory.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfFontFactory.cpp b/src/pdfmm/base/PdfFontFactory.cpp
index 3c4577c..b27f6e9 100644
--- a/src/pdfmm/base/PdfFontFactory.cpp
+++ b/src/pdfmm/base/PdfFontFactory.cpp
@@ -103,7 +103,8 @@ bool PdfFont::TryCreateFromObject(PdfObject& obj, unique_ptr<PdfFont>& font)
         if (descendants.size() != 0)
         {
             objFont = descendants.FindAt(0);
-            objDescriptor = objFont->GetDictionary().FindKey("FontDescriptor");
+            if (objFont != nullptr)
+                objDescriptor = objFont->GetDictionary().FindKey("FontDescriptor");
         }
 
         if (objFont != nullptr)
-- 
2.43.0


From c180de953398d6920185633431e80b1158d3d2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:06 +0000
Subject: [PATCH 004/105] fix: report a missing /FontDescriptor instead of
 dereferencing it

---
 src/pdfmm/base/PdfFontMetricsObject.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pdfmm/base/PdfFontMetricsObject.cpp b/src/pdfmm/base/PdfFontMetricsObject.cpp
index 75f7df3..c11ea1e 100644
--- a/src/pdfmm/base/PdfFontMetricsObject.cpp
+++ b/src/pdfmm/base/PdfFontMetricsObject.cpp
@@ -69,6 +69,9 @@ PdfFontMetricsObject::PdfFontMetricsObject(const PdfObject& font, const PdfObjec
         }
         else
         {
+            if (descriptor == nullptr)
+                PDFMM_RAISE_ERROR_INFO(PdfErrorCode::NoObject, "Missing /FontDescriptor");
+
             if (m_FontName.length() == 0 && (obj = descriptor->GetDictionary().FindKey("FontName")) != nullptr)
                 m_FontName = obj->GetName().GetString();
 
-- 
2.43.0


From 4e0e8ba2aec8189670518a9b4783bfe7a3901bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:06 +0000
Subject: [PATCH 005/105] fix: read /FontStretch given as a string

---
 src/pdfmm/base/PdfFontMetricsObject.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfFontMetricsObject.cpp b/src/pdfmm/base/PdfFontMetricsObject.cpp
index c11ea1e..8c02d69 100644
--- a/src/pdfmm/base/PdfFontMetricsObject.cpp
+++ b/src/pdfmm/base/PdfFontMetricsObject.cpp
@@ -289,7 +289,7 @@ PdfFontMetricsObject::PdfFontMetricsObject(const PdfObject& font, const PdfObjec
             if (stretchObj->TryGetName(name))
                 m_FontStretch = stretchFromString(name->GetString());
             else if (stretchObj->TryGetString(str))
-                m_FontStretch = stretchFromString(name->GetString());
+                m_FontStretch = stretchFromString(str->GetString());
             else
                 m_FontStretch = PdfFontStretch::Unknown;
         }
-- 
2.43.0


From 2a178376be93f13acbc2c4a0cf6a1dac3e195431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:06 +0000
Subject: [PATCH 006/105] fix: RemovePdfExtension removes the given extension

---
 src/pdfmm/base/PdfMemDocument.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfMemDocument.cpp b/src/pdfmm/base/PdfMemDocument.cpp
index 9aa21f3..703b04c 100644
--- a/src/pdfmm/base/PdfMemDocument.cpp
+++ b/src/pdfmm/base/PdfMemDocument.cpp
@@ -225,7 +225,7 @@ vector<PdfExtension> PdfMemDocument::GetPdfExtensions() const
 void PdfMemDocument::RemovePdfExtension(const PdfName& ns, int64_t level)
 {
     if (this->HasPdfExtension(ns, level))
-        this->GetCatalog().GetDictionary().FindKey("Extensions")->GetDictionary().RemoveKey("ns");
+        this->GetCatalog().GetDictionary().MustFindKey("Extensions").GetDictionary().RemoveKey(ns);
 }
 
 void PdfMemDocument::Save(const string_view& filename, PdfSaveOptions options)
-- 
2.43.0


From f8c88b992bfc76ae42b39b56d05309fb56ab92b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:06 +0000
Subject: [PATCH 007/105] fix: do not parse the stream of objects that were not
 parsed from the file

---
 src/pdfmm/base/PdfParser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfParser.cpp b/src/pdfmm/base/PdfParser.cpp
index a74b5e9..2421ce7 100644
--- a/src/pdfmm/base/PdfParser.cpp
+++ b/src/pdfmm/base/PdfParser.cpp
@@ -803,7 +803,8 @@ void PdfParser::ReadObjectsInternal(InputStreamDevice& device)
         for (auto objToLoad : *m_Objects)
         {
             auto obj = dynamic_cast<PdfParserObject*>(objToLoad);
-            obj->ParseStream();
+            if (obj != nullptr)
+                obj->ParseStream();
         }
     }
 
-- 
2.43.0


From fc7d7ad8c9ff3acb653c5328520453a5cb10a43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:06 +0000
Subject: [PATCH 008/105] fix: report a missing /V when adding a certification
 reference

---
 src/pdfmm/base/PdfSignature.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfSignature.cpp b/src/pdfmm/base/PdfSignature.cpp
index c0a25a1..743a918 100644
--- a/src/pdfmm/base/PdfSignature.cpp
+++ b/src/pdfmm/base/PdfSignature.cpp
@@ -161,7 +161,7 @@ void PdfSignature::AddCertificationReference(PdfCertPermission perm)
 
     auto& catalog = GetDocument().GetCatalog();
     PdfObject permObject;
-    permObject.GetDictionary().AddKey("DocMDP", this->GetObject().GetDictionary().GetKey("V")->GetReference());
+    permObject.GetDictionary().AddKey("DocMDP", this->GetObject().GetDictionary().MustGetKey("V").GetReference());
     catalog.GetDictionary().AddKey("Perms", permObject);
 
     PdfArray refers;
-- 
2.43.0


From 9cc379432638d518caf3ed00d19289159f888bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:19 +0000
Subject: [PATCH 009/105] fix: white space in drawn text does not depend on the
 locale

---
 src/pdfmm/base/PdfPainter.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/pdfmm/base/PdfPainter.cpp b/src/pdfmm/base/PdfPainter.cpp
index 7c6df66..e3ca6ce 100644
--- a/src/pdfmm/base/PdfPainter.cpp
+++ b/src/pdfmm/base/PdfPainter.cpp
@@ -43,10 +43,8 @@ inline bool IsNewLineChar(char32_t ch)
 
 inline bool IsSpaceChar(char32_t ch)
 {
-    if (ch > 255)
-        return false;
-
-    return std::isspace((int)ch) != 0;
+    // NOTE: Don't use std::isspace(), it depends on the locale
+    return ch == U' ' || (ch >= U'\t' && ch <= U'\r');
 }
 
 PdfPainter::PdfPainter(PdfPainterFlags flags) :
-- 
2.43.0


From f5b276fd0df8ee78cff26ffe74a00036e26050cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:19 +0000
Subject: [PATCH 010/105] fix: ASCII lower casing does not depend on the locale

---
 src/pdfmm/private/PdfDeclarationsPrivate.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/private/PdfDeclarationsPrivate.cpp b/src/pdfmm/private/PdfDeclarationsPrivate.cpp
index e90393b..7b1ac32 100644
--- a/src/pdfmm/private/PdfDeclarationsPrivate.cpp
+++ b/src/pdfmm/private/PdfDeclarationsPrivate.cpp
@@ -991,7 +991,7 @@ string utls::ToLower(const string_view& str)
 {
     string ret = (string)str;
     std::transform(ret.begin(), ret.end(), ret.begin(),
-        [](unsigned char c) { return std::tolower(c); });
+        [](char c) { return c >= 'A' && c <= 'Z' ? (char)(c - 'A' + 'a') : c; });
     return ret;
 }
 
-- 
2.43.0


From 50694c35af39321aff443dc6efdc79550fcb306e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:19 +0000
Subject: [PATCH 011/105] fix: text search by regular expression does not
 depend on the locale

---
 src/pdfmm/base/PdfPage_TextExtraction.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfPage_TextExtraction.cpp b/src/pdfmm/base/PdfPage_TextExtraction.cpp
index 49c8677..df800f6 100644
--- a/src/pdfmm/base/PdfPage_TextExtraction.cpp
+++ b/src/pdfmm/base/PdfPage_TextExtraction.cpp
@@ -571,7 +571,9 @@ void addEntryChunk(vector<PdfTextEntry> &textEntries, StringChunkList &chunks, c
 
             // NOTE: regex_search returns true when a sub-part of the string
             // matches the regex
-            regex pieces_regex((string)pattern, flags);
+            regex pieces_regex;
+            pieces_regex.imbue(locale::classic());
+            pieces_regex.assign((string)pattern, flags);
             match = std::regex_search(str, pieces_regex);
         }
         else
-- 
2.43.0


From 7d0f0390d4ffc073064ef66c26a696c9f298c875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:22 +0000
Subject: [PATCH 012/105] fix: raise library errors instead of standard
 exceptions

---
 src/pdfmm/base/PdfArray.cpp                  | 4 ++--
 src/pdfmm/base/PdfField.cpp                  | 4 ++--
 src/pdfmm/base/PdfFontConfigWrapper.cpp      | 8 ++++----
 src/pdfmm/base/PdfName.cpp                   | 2 +-
 src/pdfmm/base/PdfPage_TextExtraction.cpp    | 6 +++---
 src/pdfmm/base/PdfSigner.cpp                 | 2 +-
 src/pdfmm/base/PdfString.cpp                 | 8 ++++----
 src/pdfmm/private/PdfDeclarationsPrivate.cpp | 2 +-
 src/pdfmm/private/XMPUtils.cpp               | 8 ++++----
 9 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/src/pdfmm/base/PdfArray.cpp b/src/pdfmm/base/PdfArray.cpp
index e76d091..c8e83eb 100644
--- a/src/pdfmm/base/PdfArray.cpp
+++ b/src/pdfmm/base/PdfArray.cpp
@@ -368,7 +368,7 @@ void PdfArray::resize(size_t size)
 {
 #ifndef NDEBUG
     if (size > numeric_limits<unsigned>::max())
-        throw length_error("Too big size");
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::ValueOutOfRange, "Too big size");
 #endif
     m_Objects.resize(size);
 }
@@ -377,7 +377,7 @@ void PdfArray::reserve(size_t size)
 {
 #ifndef NDEBUG
     if (size > numeric_limits<unsigned>::max())
-        throw length_error("Too big size");
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::ValueOutOfRange, "Too big size");
 #endif
     m_Objects.reserve(size);
 }
diff --git a/src/pdfmm/base/PdfField.cpp b/src/pdfmm/base/PdfField.cpp
index 428a2d1..786ed9e 100644
--- a/src/pdfmm/base/PdfField.cpp
+++ b/src/pdfmm/base/PdfField.cpp
@@ -20,7 +20,7 @@
 #include "PdfListBox.h"
 
 #define CHECK_FIELD_NAME(name) if (name.find('.') != string::npos)\
-    throw runtime_error("Unsupported dot \".\" in field name. Use PdfField.CreateChild()");
+    PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidName, "Unsupported dot \".\" in field name. Use PdfField.CreateChild()");
 
 using namespace std;
 using namespace mm;
@@ -174,7 +174,7 @@ PdfField& PdfField::Create(const string_view& name,
             if (fieldName.has_value() && *fieldName == name)
             {
                 if (field->GetType() != type)
-                    throw runtime_error("Found field with same name and different type");
+                    PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidDataType, "Found field with same name and different type");
 
                 candidateParent = field;
                 break;
diff --git a/src/pdfmm/base/PdfFontConfigWrapper.cpp b/src/pdfmm/base/PdfFontConfigWrapper.cpp
index 3987008..4812a4f 100644
--- a/src/pdfmm/base/PdfFontConfigWrapper.cpp
+++ b/src/pdfmm/base/PdfFontConfigWrapper.cpp
@@ -79,7 +79,7 @@ string PdfFontConfigWrapper::GetFontConfigFontPath(const string_view fontName,
 void PdfFontConfigWrapper::AddFontDirectory(const string_view& path)
 {
     if (!FcConfigAppFontAddDir(m_FcConfig, (const FcChar8*)path.data()))
-        throw runtime_error("Unable to add font directory");
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::FileNotFound, "Unable to add font directory");
 }
 
 FcConfig* PdfFontConfigWrapper::GetFcConfig()
@@ -126,7 +126,7 @@ void PdfFontConfigWrapper::createDefaultConfig()
 
     auto config = FcConfigCreate();
     if (config == nullptr)
-        throw runtime_error("Could not allocate font config");
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidFontFile, "Could not allocate font config");
 
     // Manually try to load the config to determine
     // if a system configuration exists. Tell FontConfig
@@ -140,14 +140,14 @@ void PdfFontConfigWrapper::createDefaultConfig()
         if (!FcConfigParseAndLoadFromMemory(config, (const FcChar8*)fontconf, true))
         {
             FcConfigDestroy(config);
-            throw runtime_error("Could not parse font config");
+            PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidFontFile, "Could not parse font config");
         }
 
         // Load fonts for the config
         if (!FcConfigBuildFonts(config))
         {
             FcConfigDestroy(config);
-            throw runtime_error("Could not load fonts in fontconfig");
+            PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidFontFile, "Could not load fonts in fontconfig");
         }
 
         m_FcConfig = config;
diff --git a/src/pdfmm/base/PdfName.cpp b/src/pdfmm/base/PdfName.cpp
index 7d20dc2..3383177 100644
--- a/src/pdfmm/base/PdfName.cpp
+++ b/src/pdfmm/base/PdfName.cpp
@@ -65,7 +65,7 @@ PdfName::PdfName(charbuff&& buff)
 void PdfName::initFromUtf8String(const string_view& view)
 {
     if (view.data() == nullptr)
-        throw runtime_error("Name is null");
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidHandle, "Name is null");
 
     if (view.length() == 0)
     {
diff --git a/src/pdfmm/base/PdfPage_TextExtraction.cpp b/src/pdfmm/base/PdfPage_TextExtraction.cpp
index df800f6..484f24b 100644
--- a/src/pdfmm/base/PdfPage_TextExtraction.cpp
+++ b/src/pdfmm/base/PdfPage_TextExtraction.cpp
@@ -260,7 +260,7 @@ void PdfPage::ExtractTextTo(vector<PdfTextEntry>& entries, const string_view& pa
                         }
                         else
                         {
-                            throw runtime_error("Invalid flow");
+                            PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InternalLogic, "Invalid flow");
                         }
 
                         break;
@@ -428,7 +428,7 @@ void PdfPage::ExtractTextTo(vector<PdfTextEntry>& entries, const string_view& pa
             }
             default:
             {
-                throw runtime_error("Unsupported PdfContentType");
+                PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidEnumValue, "Unsupported PdfContentType");
             }
         }
     }
@@ -866,7 +866,7 @@ void TextStateStack::Push()
 void TextStateStack::Pop(unsigned popCount)
 {
     if (popCount >= m_states.size())
-        throw runtime_error("Can't pop out all the states in the stack");
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidContentStream, "Can't pop out all the states in the stack");
 
     for (unsigned i = 0; i < popCount; i++)
         m_states.pop();
diff --git a/src/pdfmm/base/PdfSigner.cpp b/src/pdfmm/base/PdfSigner.cpp
index 0979864..a29503b 100644
--- a/src/pdfmm/base/PdfSigner.cpp
+++ b/src/pdfmm/base/PdfSigner.cpp
@@ -78,7 +78,7 @@ void mm::SignDocument(PdfMemDocument& doc, StreamDevice& device, PdfSigner& sign
 
     signer.ComputeSignature(signatureBuf, false);
     if (signatureBuf.size() > beaconSize)
-        throw runtime_error("Actual signature size bigger than beacon size");
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::ValueOutOfRange, "Actual signature size bigger than beacon size");
 
     // Ensure the signature will be as big as the
     // beacon size previously cached to fill all
diff --git a/src/pdfmm/base/PdfString.cpp b/src/pdfmm/base/PdfString.cpp
index 31be2a3..0e4cd5c 100644
--- a/src/pdfmm/base/PdfString.cpp
+++ b/src/pdfmm/base/PdfString.cpp
@@ -304,7 +304,7 @@ PdfString::operator string_view() const
 void PdfString::initFromUtf8String(const string_view& view)
 {
     if (view.data() == nullptr)
-        throw runtime_error("String is null");
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidHandle, "String is null");
 
     if (view.length() == 0)
     {
@@ -368,13 +368,13 @@ void PdfString::evaluateString() const
                     break;
                 }
                 default:
-                    throw runtime_error("Unsupported");
+                    PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidEnumValue, "Unsupported");
             }
 
             return;
         }
         default:
-            throw runtime_error("Unsupported");
+            PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidEnumValue, "Unsupported");
     }
 }
 
@@ -393,7 +393,7 @@ bool PdfString::canPerformComparison(const PdfString& lhs, const PdfString& rhs)
 const string& PdfString::GetRawData() const
 {
     if (m_data->State != PdfStringState::RawBuffer)
-        throw runtime_error("The string buffer has been evaluated");
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InternalLogic, "The string buffer has been evaluated");
 
     return m_data->Chars;
 }
diff --git a/src/pdfmm/private/PdfDeclarationsPrivate.cpp b/src/pdfmm/private/PdfDeclarationsPrivate.cpp
index 7b1ac32..ddc7e21 100644
--- a/src/pdfmm/private/PdfDeclarationsPrivate.cpp
+++ b/src/pdfmm/private/PdfDeclarationsPrivate.cpp
@@ -772,7 +772,7 @@ void utls::ReadTo(charbuff& str, istream& stream)
 {
     stream.seekg(0, ios::end);
     if (stream.tellg() == -1)
-        throw runtime_error("Error reading from stream");
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::UnexpectedEOF, "Error reading from stream");
 
     str.reserve((size_t)stream.tellg());
     stream.seekg(0, ios::beg);
diff --git a/src/pdfmm/private/XMPUtils.cpp b/src/pdfmm/private/XMPUtils.cpp
index f653d4d..89a090f 100644
--- a/src/pdfmm/private/XMPUtils.cpp
+++ b/src/pdfmm/private/XMPUtils.cpp
@@ -190,7 +190,7 @@ xmlNsPtr findOrCreateNamespace(xmlDocPtr doc, xmlNodePtr description, PdfANamesp
             href = "http://www.aiim.org/pdfa/ns/id/";
             break;
         default:
-            throw runtime_error("Unsupported");
+            PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidEnumValue, "Unsupported");
     }
     auto xmlNs = xmlSearchNs(doc, description, XMLCHAR prefix);
     if (xmlNs == nullptr)
@@ -259,7 +259,7 @@ void addXMPProperty(xmlDocPtr doc, xmlNodePtr description,
             propName = "rev";
             break;
         default:
-            throw runtime_error("Unsupported");
+            PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidEnumValue, "Unsupported");
     }
 
     auto element = xmlNewChild(description, xmlNs, XMLCHAR propName, nullptr);
@@ -387,7 +387,7 @@ void removeXMPProperty(xmlNodePtr description, XMPMetadataKind property)
             propname = "rev";
             break;
         default:
-            throw runtime_error("Unsupported");
+            PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidEnumValue, "Unsupported");
     }
 
     xmlNodePtr elemModDate = nullptr;
@@ -489,7 +489,7 @@ void getPdfALevelComponents(PdfALevel level, string& levelStr, string& conforman
             revision = "2020";
             return;
         default:
-            throw runtime_error("Unsupported");
+            PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidEnumValue, "Unsupported");
     }
 }
 
-- 
2.43.0


From 02f6c78467832ad8c4e169aeb8279e64204a1891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:01 +0000
Subject: [PATCH 013/105] fix: looking up an unknown field or annotation raises
 a library error

---
 src/pdfmm/base/PdfAcroForm.cpp                | 6 +++++-
 src/pdfmm/base/PdfAnnotationCollection.cpp    | 6 +++++-
 src/pdfmm/base/PdfFieldChildrenCollection.cpp | 6 +++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/base/PdfAcroForm.cpp b/src/pdfmm/base/PdfAcroForm.cpp
index ddf5fd1..ee52496 100644
--- a/src/pdfmm/base/PdfAcroForm.cpp
+++ b/src/pdfmm/base/PdfAcroForm.cpp
@@ -102,7 +102,11 @@ PdfField& PdfAcroForm::getField(unsigned index) const
 PdfField& PdfAcroForm::getField(const PdfReference& ref) const
 {
     const_cast<PdfAcroForm&>(*this).initFields();
-    return *m_Fields[(*m_fieldMap).at(ref)];
+    auto found = m_fieldMap->find(ref);
+    if (found == m_fieldMap->end())
+        PDFMM_RAISE_ERROR(PdfErrorCode::NoObject);
+
+    return *m_Fields[found->second];
 }
 
 void PdfAcroForm::RemoveFieldAt(unsigned index)
diff --git a/src/pdfmm/base/PdfAnnotationCollection.cpp b/src/pdfmm/base/PdfAnnotationCollection.cpp
index af15e10..497575c 100644
--- a/src/pdfmm/base/PdfAnnotationCollection.cpp
+++ b/src/pdfmm/base/PdfAnnotationCollection.cpp
@@ -143,7 +143,11 @@ PdfAnnotation& PdfAnnotationCollection::getAnnotAt(unsigned index) const
 PdfAnnotation& PdfAnnotationCollection::getAnnot(const PdfReference& ref) const
 {
     const_cast<PdfAnnotationCollection&>(*this).initAnnotations();
-    return *m_Annots[(*m_annotMap).at(ref)];
+    auto found = m_annotMap->find(ref);
+    if (found == m_annotMap->end())
+        PDFMM_RAISE_ERROR(PdfErrorCode::NoObject);
+
+    return *m_Annots[found->second];
 }
 
 void PdfAnnotationCollection::initAnnotations()
diff --git a/src/pdfmm/base/PdfFieldChildrenCollection.cpp b/src/pdfmm/base/PdfFieldChildrenCollection.cpp
index 76e05e8..52df406 100644
--- a/src/pdfmm/base/PdfFieldChildrenCollection.cpp
+++ b/src/pdfmm/base/PdfFieldChildrenCollection.cpp
@@ -152,7 +152,11 @@ PdfField& PdfFieldChildrenCollectionBase::getFieldAt(unsigned index) const
 PdfField& PdfFieldChildrenCollectionBase::getField(const PdfReference& ref) const
 {
     const_cast<PdfFieldChildrenCollectionBase&>(*this).initFields();
-    return *m_Fields[(*m_fieldMap).at(ref)];
+    auto found = m_fieldMap->find(ref);
+    if (found == m_fieldMap->end())
+        PDFMM_RAISE_ERROR(PdfErrorCode::NoObject);
+
+    return *m_Fields[found->second];
 }
 
 void PdfFieldChildrenCollectionBase::initFields()
-- 
2.43.0


From 69ccbb39cbc67c4c8df3421919e500248c77e1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:01 +0000
Subject: [PATCH 014/105] fix: checking for a file does not throw a standard
 exception

---
 src/pdfmm/base/PdfStreamDevice.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/base/PdfStreamDevice.cpp b/src/pdfmm/base/PdfStreamDevice.cpp
index 6f3fc06..f9e13b6 100644
--- a/src/pdfmm/base/PdfStreamDevice.cpp
+++ b/src/pdfmm/base/PdfStreamDevice.cpp
@@ -399,23 +399,24 @@ fstream* FileStreamDevice::getFileStream(const string_view& filename, FileMode m
             PDFMM_RAISE_ERROR(PdfErrorCode::InvalidEnumValue);
     }
 
+    error_code ec;
     switch (mode)
     {
         case FileMode::CreateNew:
-            if (fs::exists(filename))
+            if (fs::exists(filename, ec))
                 PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidDeviceOperation, "The file must not exist");
             break;
         case FileMode::Create:
             openmode |= ios_base::trunc;
             break;
         case FileMode::Open:
-            if ((access & DeviceAccess::Write) != DeviceAccess{ } && !fs::exists(filename))
+            if ((access & DeviceAccess::Write) != DeviceAccess{ } && !fs::exists(filename, ec))
                 PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidDeviceOperation, "The file must exist");
             break;
         case FileMode::OpenOrCreate:
             break;
         case FileMode::Truncate:
-            if (!fs::exists(filename))
+            if (!fs::exists(filename, ec))
                 PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidDeviceOperation, "The file must exist");
             openmode |= ios_base::trunc;
             break;
-- 
2.43.0


From 46d4a105230b05dcc5058a0450e8f2c0305d92aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:01 +0000
Subject: [PATCH 015/105] fix: PdfErrorInfo::GetFilePath works with paths
 shorter than the source root

---
 src/pdfmm/base/PdfError.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pdfmm/base/PdfError.cpp b/src/pdfmm/base/PdfError.cpp
index a1cd96b..ea3ea14 100644
--- a/src/pdfmm/base/PdfError.cpp
+++ b/src/pdfmm/base/PdfError.cpp
@@ -311,5 +311,8 @@ void PdfError::AddToCallstack(string filepath, unsigned line, string information
 
 string_view PdfErrorInfo::GetFilePath() const
 {
+    if (m_FilePath.size() < s_PathOffset.Value)
+        return m_FilePath;
+
     return ((string_view)m_FilePath).substr(s_PathOffset.Value);
 }
-- 
2.43.0


From bcc254d9375f7ad17d33b79598c37f5586a9b873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:39 +0000
Subject: [PATCH 016/105] fix: check the allocation of cipher contexts

---
 src/pdfmm/base/PdfEncrypt.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pdfmm/base/PdfEncrypt.cpp b/src/pdfmm/base/PdfEncrypt.cpp
index cc03d39..0fa8406 100644
--- a/src/pdfmm/base/PdfEncrypt.cpp
+++ b/src/pdfmm/base/PdfEncrypt.cpp
@@ -92,6 +92,8 @@ public:
     AESCryptoEngine()
     {
         aes = EVP_CIPHER_CTX_new();
+        if (aes == nullptr)
+            PDFMM_RAISE_ERROR(PdfErrorCode::OutOfMemory);
     }
     
     EVP_CIPHER_CTX* getEngine()
@@ -117,6 +119,8 @@ public:
     RC4CryptoEngine()
     {
         rc4 = EVP_CIPHER_CTX_new();
+        if (rc4 == nullptr)
+            PDFMM_RAISE_ERROR(PdfErrorCode::OutOfMemory);
     }
 
     EVP_CIPHER_CTX* getEngine()
-- 
2.43.0


From 838cd02da5fd093c7d6ed50e86f646892df32c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:39 +0000
Subject: [PATCH 017/105] fix: release the cipher context when computing
 AES-256 keys fails

---
 src/pdfmm/base/PdfEncrypt.cpp | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/pdfmm/base/PdfEncrypt.cpp b/src/pdfmm/base/PdfEncrypt.cpp
index 0fa8406..956b8cb 100644
--- a/src/pdfmm/base/PdfEncrypt.cpp
+++ b/src/pdfmm/base/PdfEncrypt.cpp
@@ -1509,8 +1509,8 @@ void PdfEncryptSHABase::ComputeUserKey(const unsigned char* userpswd, size_t len
     // UE = AES-256 encoded file encryption key with key=hash
     // CBC mode, no padding, init vector=0
 
-    EVP_CIPHER_CTX* aes;
-    aes = EVP_CIPHER_CTX_new();
+    AESCryptoEngine engine;
+    EVP_CIPHER_CTX* aes = engine.getEngine();
 
     int status = EVP_EncryptInit_ex(aes, EVP_aes_256_cbc(), nullptr, hashValue, nullptr);
     if (status != 1)
@@ -1525,8 +1525,6 @@ void PdfEncryptSHABase::ComputeUserKey(const unsigned char* userpswd, size_t len
     status = EVP_EncryptFinal_ex(aes, &m_ueValue[dataOutMoved], &dataOutMoved);
     if (status != 1)
         PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InternalLogic, "Error AES-encrypting data");
-
-    EVP_CIPHER_CTX_free(aes);
 }
 
 void PdfEncryptSHABase::ComputeOwnerKey(const unsigned char* ownerpswd, size_t len)
@@ -1556,8 +1554,8 @@ void PdfEncryptSHABase::ComputeOwnerKey(const unsigned char* ownerpswd, size_t l
     // OE = AES-256 encoded file encryption key with key=hash
     // CBC mode, no padding, init vector=0
 
-    EVP_CIPHER_CTX* aes;
-    aes = EVP_CIPHER_CTX_new();
+    AESCryptoEngine engine;
+    EVP_CIPHER_CTX* aes = engine.getEngine();
 
     int status = EVP_EncryptInit_ex(aes, EVP_aes_256_cbc(), nullptr, hashValue, nullptr);
     if (status != 1)
@@ -1572,8 +1570,6 @@ void PdfEncryptSHABase::ComputeOwnerKey(const unsigned char* ownerpswd, size_t l
     status = EVP_EncryptFinal_ex(aes, &m_oeValue[dataOutMoved], &dataOutMoved);
     if (status != 1)
         PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InternalLogic, "Error AES-encrypting data");
-
-    EVP_CIPHER_CTX_free(aes);
 }
 
 void PdfEncryptSHABase::PreprocessPassword(const string_view& password, unsigned char* outBuf, size_t& len)
@@ -1704,8 +1700,8 @@ void PdfEncryptAESV3::GenerateEncryptionKey(const string_view& documentId)
 
     // Encrypt Perms value
 
-    EVP_CIPHER_CTX* aes;
-    aes = EVP_CIPHER_CTX_new();
+    AESCryptoEngine engine;
+    EVP_CIPHER_CTX* aes = engine.getEngine();
 
     int status = EVP_EncryptInit_ex(aes, EVP_aes_256_cbc(), nullptr, m_encryptionKey, nullptr);
     if (status != 1)
@@ -1720,8 +1716,6 @@ void PdfEncryptAESV3::GenerateEncryptionKey(const string_view& documentId)
     status = EVP_EncryptFinal_ex(aes, &m_permsValue[dataOutMoved], &dataOutMoved);
     if (status != 1)
         PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InternalLogic, "Error AES-encrypting data");
-
-    EVP_CIPHER_CTX_free(aes);
 }
 
 bool PdfEncryptAESV3::Authenticate(const string_view& password, const string_view& documentId)
-- 
2.43.0


From a0161537c31a6cf825bebf4c20668e9527d64756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:39 +0000
Subject: [PATCH 018/105] fix: check hashing of the metadata marker

---
 src/pdfmm/base/PdfEncrypt.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pdfmm/base/PdfEncrypt.cpp b/src/pdfmm/base/PdfEncrypt.cpp
index 956b8cb..00124a3 100644
--- a/src/pdfmm/base/PdfEncrypt.cpp
+++ b/src/pdfmm/base/PdfEncrypt.cpp
@@ -770,6 +770,8 @@ void PdfEncryptMD5Base::ComputeEncryptionKey(const string_view& documentId,
     {
         unsigned char noMetaAddition[4] = { 0xFF, 0xFF, 0xFF, 0xFF };
         status = MD5_Update(&ctx, noMetaAddition, 4);
+        if (status != 1)
+            PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InternalLogic, "Error MD5-hashing data");
     }
 
     unsigned char digest[MD5_DIGEST_LENGTH];
-- 
2.43.0


From efad63baa9a8a222bd9ed8e9643ac092ececaac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:39 +0000
Subject: [PATCH 019/105] fix: check the result of hashing AES-256 passwords

---
 src/pdfmm/base/PdfEncrypt.cpp | 45 +++++++++++++++++++++++------------
 1 file changed, 30 insertions(+), 15 deletions(-)

diff --git a/src/pdfmm/base/PdfEncrypt.cpp b/src/pdfmm/base/PdfEncrypt.cpp
index 00124a3..c4fbae2 100644
--- a/src/pdfmm/base/PdfEncrypt.cpp
+++ b/src/pdfmm/base/PdfEncrypt.cpp
@@ -1421,13 +1421,18 @@ PdfEncryptSHABase::PdfEncryptSHABase(const PdfEncrypt& rhs) : PdfEncrypt(rhs)
 void PdfEncryptSHABase::ComputeHash(const unsigned char* pswd, int pswdLen, unsigned char salt[8], unsigned char uValue[48], unsigned char hashValue[32])
 {
     SHA256_CTX sha256;
-    SHA256_Init(&sha256);
+    if (SHA256_Init(&sha256) != 1)
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InternalLogic, "Error SHA-hashing data");
     if (pswdLen)
-        SHA256_Update(&sha256, pswd, pswdLen);
-    SHA256_Update(&sha256, salt, 8);
+        if (SHA256_Update(&sha256, pswd, pswdLen) != 1)
+            PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InternalLogic, "Error SHA-hashing data");
+    if (SHA256_Update(&sha256, salt, 8) != 1)
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InternalLogic, "Error SHA-hashing data");
     if (uValue)
-        SHA256_Update(&sha256, uValue, 48);
-    SHA256_Final(hashValue, &sha256);
+        if (SHA256_Update(&sha256, uValue, 48) != 1)
+            PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InternalLogic, "Error SHA-hashing data");
+    if (SHA256_Final(hashValue, &sha256) != 1)
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InternalLogic, "Error SHA-hashing data");
 
     if (m_rValue > 5) // AES-256 according to PDF 1.7 Adobe Extension Level 8 (PDF 2.0)
     {
@@ -1453,7 +1458,8 @@ void PdfEncryptSHABase::ComputeHash(const unsigned char* pswd, int pswdLen, unsi
                 memcpy(data + j * dataLen, data, dataLen);
             dataLen *= 64;
 
-            AES_set_encrypt_key(block, 128, &aes);
+            if (AES_set_encrypt_key(block, 128, &aes) != 0)
+                PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InternalLogic, "Error initializing AES encryption engine");
             AES_cbc_encrypt(data, data, dataLen, &aes, block + 16, AES_ENCRYPT);
             int sum = 0;
             for (int j = 0; j < 16; j++)
@@ -1462,21 +1468,30 @@ void PdfEncryptSHABase::ComputeHash(const unsigned char* pswd, int pswdLen, unsi
 
             if (blockLen == 32)
             {
-                SHA256_Init(&sha256);
-                SHA256_Update(&sha256, data, dataLen);
-                SHA256_Final(block, &sha256);
+                if (SHA256_Init(&sha256) != 1)
+                    PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InternalLogic, "Error SHA-hashing data");
+                if (SHA256_Update(&sha256, data, dataLen) != 1)
+                    PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InternalLogic, "Error SHA-hashing data");
+                if (SHA256_Final(block, &sha256) != 1)
+                    PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InternalLogic, "Error SHA-hashing data");
             }
             else if (blockLen == 48)
             {
-                SHA384_Init(&sha384);
-                SHA384_Update(&sha384, data, dataLen);
-                SHA384_Final(block, &sha384);
+                if (SHA384_Init(&sha384) != 1)
+                    PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InternalLogic, "Error SHA-hashing data");
+                if (SHA384_Update(&sha384, data, dataLen) != 1)
+                    PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InternalLogic, "Error SHA-hashing data");
+                if (SHA384_Final(block, &sha384) != 1)
+                    PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InternalLogic, "Error SHA-hashing data");
             }
             else
             {
-                SHA512_Init(&sha512);
-                SHA512_Update(&sha512, data, dataLen);
-                SHA512_Final(block, &sha512);
+                if (SHA512_Init(&sha512) != 1)
+                    PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InternalLogic, "Error SHA-hashing data");
+                if (SHA512_Update(&sha512, data, dataLen) != 1)
+                    PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InternalLogic, "Error SHA-hashing data");
+                if (SHA512_Final(block, &sha512) != 1)
+                    PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InternalLogic, "Error SHA-hashing data");
             }
         }
         memcpy(hashValue, block, 32);
-- 
2.43.0


From 5e218625c43c62401b1c2d8bd6ecfda05c2a6dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:39 +0000
Subject: [PATCH 020/105] fix: check decryption of the AES-256 file key

---
 src/pdfmm/base/PdfEncrypt.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/pdfmm/base/PdfEncrypt.cpp b/src/pdfmm/base/PdfEncrypt.cpp
index c4fbae2..1964012 100644
--- a/src/pdfmm/base/PdfEncrypt.cpp
+++ b/src/pdfmm/base/PdfEncrypt.cpp
@@ -1768,10 +1768,12 @@ bool PdfEncryptAESV3::Authenticate(const string_view& password, const string_vie
             // AES-256 in CBC mode with no padding and an initialization vector of zero.
             // The 32-byte result is the file encryption key"
             EVP_CIPHER_CTX* aes = m_aes->getEngine();
-            EVP_DecryptInit_ex(aes, EVP_aes_256_cbc(), nullptr, hashValue, 0); // iv zero
+            if (EVP_DecryptInit_ex(aes, EVP_aes_256_cbc(), nullptr, hashValue, 0) != 1) // iv zero
+                PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InternalLogic, "Error initializing AES decryption engine");
             EVP_CIPHER_CTX_set_padding(aes, 0); // no padding
             int lOutLen;
-            EVP_DecryptUpdate(aes, m_encryptionKey, &lOutLen, m_oeValue, 32);
+            if (EVP_DecryptUpdate(aes, m_encryptionKey, &lOutLen, m_oeValue, 32) != 1)
+                PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InternalLogic, "Error AES-decrypting data");
         }
     }
     else
@@ -1785,10 +1787,12 @@ bool PdfEncryptAESV3::Authenticate(const string_view& password, const string_vie
         // AES-256 in CBC mode with no padding and an initialization vector of zero.
         // The 32-byte result is the file encryption key"
         EVP_CIPHER_CTX* aes = m_aes->getEngine();
-        EVP_DecryptInit_ex(aes, EVP_aes_256_cbc(), nullptr, hashValue, 0); // iv zero
+        if (EVP_DecryptInit_ex(aes, EVP_aes_256_cbc(), nullptr, hashValue, 0) != 1) // iv zero
+            PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InternalLogic, "Error initializing AES decryption engine");
         EVP_CIPHER_CTX_set_padding(aes, 0); // no padding
         int lOutLen;
-        EVP_DecryptUpdate(aes, m_encryptionKey, &lOutLen, m_ueValue, 32);
+        if (EVP_DecryptUpdate(aes, m_encryptionKey, &lOutLen, m_ueValue, 32) != 1)
+            PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InternalLogic, "Error AES-decrypting data");
     }
 
     // TODO Validate permissions (or not...)
-- 
2.43.0


From 90f7d82280a6a9067a94cbca3c95654dacc325ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:39 +0000
Subject: [PATCH 021/105] fix: reject TIFF images without dimensions or color
 map

---
 src/pdfmm/base/PdfImage.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/base/PdfImage.cpp b/src/pdfmm/base/PdfImage.cpp
index 138abe2..24462f2 100644
--- a/src/pdfmm/base/PdfImage.cpp
+++ b/src/pdfmm/base/PdfImage.cpp
@@ -664,8 +664,12 @@ void PdfImage::loadFromTiffHandle(void* handle)
     uint16 planarConfig, photoMetric, orientation;
     int32 resolutionUnit;
 
-    TIFFGetField(hInTiffHandle, TIFFTAG_IMAGEWIDTH, &width);
-    TIFFGetField(hInTiffHandle, TIFFTAG_IMAGELENGTH, &height);
+    if (!TIFFGetField(hInTiffHandle, TIFFTAG_IMAGEWIDTH, &width)
+        || !TIFFGetField(hInTiffHandle, TIFFTAG_IMAGELENGTH, &height))
+    {
+        TIFFClose(hInTiffHandle);
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::UnsupportedImageFormat, "TIFF image without width or height");
+    }
     TIFFGetFieldDefaulted(hInTiffHandle, TIFFTAG_BITSPERSAMPLE, &bitsPerSample);
     TIFFGetFieldDefaulted(hInTiffHandle, TIFFTAG_SAMPLESPERPIXEL, &samplesPerPixel);
     TIFFGetFieldDefaulted(hInTiffHandle, TIFFTAG_PLANARCONFIG, &planarConfig);
@@ -781,7 +785,11 @@ void PdfImage::loadFromTiffHandle(void* handle)
             uint16* rgbRed;
             uint16* rgbGreen;
             uint16* rgbBlue;
-            TIFFGetField(hInTiffHandle, TIFFTAG_COLORMAP, &rgbRed, &rgbGreen, &rgbBlue);
+            if (!TIFFGetField(hInTiffHandle, TIFFTAG_COLORMAP, &rgbRed, &rgbGreen, &rgbBlue))
+            {
+                TIFFClose(hInTiffHandle);
+                PDFMM_RAISE_ERROR_INFO(PdfErrorCode::UnsupportedImageFormat, "TIFF palette image without color map");
+            }
 
             charbuff data(numColors * 3);
 
-- 
2.43.0


From ad5f48e3b4ff7294227651904e1ee7ed374f6666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:39 +0000
Subject: [PATCH 022/105] fix: check FreeType calls when inspecting a font face

---
 src/pdfmm/base/PdfFontMetricsFreetype.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pdfmm/base/PdfFontMetricsFreetype.cpp b/src/pdfmm/base/PdfFontMetricsFreetype.cpp
index 09621dd..b30196b 100644
--- a/src/pdfmm/base/PdfFontMetricsFreetype.cpp
+++ b/src/pdfmm/base/PdfFontMetricsFreetype.cpp
@@ -114,6 +114,7 @@ void PdfFontMetricsFreetype::initFromFace(const PdfFontMetrics* refMetrics)
                 m_HasUnicodeMapping = true;
                 m_HasSymbolCharset = true;
                 rc = FT_Set_Charmap(m_Face.get(), charmap);
+                CHECK_FT_RC(rc, FT_Set_Charmap);
                 break;
             }
         }
@@ -550,6 +551,7 @@ PdfFontFileType determineTrueTypeFormat(FT_Face face)
     for (FT_ULong i = 0, count = size; i < count; i++)
     {
         rc = FT_Sfnt_Table_Info(face, i, &tag, &size);
+        CHECK_FT_RC(rc, FT_Sfnt_Table_Info);
         switch (tag)
         {
             // Legacy TrueType tables
-- 
2.43.0


From ea8051cbd44621417c373a309c6865ac8d9bfe09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:39 +0000
Subject: [PATCH 023/105] fix: check moving of XMP elements

---
 src/pdfmm/base/PdfXMPPacket.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfXMPPacket.cpp b/src/pdfmm/base/PdfXMPPacket.cpp
index 492e3bd..7f7d025 100644
--- a/src/pdfmm/base/PdfXMPPacket.cpp
+++ b/src/pdfmm/base/PdfXMPPacket.cpp
@@ -127,7 +127,8 @@ void normalizeXMPMetadata(xmlDocPtr doc, xmlNodePtr xmpmeta, xmlNodePtr& descrip
         for (auto child : childrenToMove)
         {
             xmlUnlinkNode(child);
-            xmlAddChild(description, child);
+            if (xmlAddChild(description, child) == nullptr)
+                THROW_LIBXML_EXCEPTION("Can't move XMP element");
         }
     }
 
-- 
2.43.0


From 1ad73b9907f42efbee939e04660a5ede4f626d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:39 +0000
Subject: [PATCH 024/105] fix: search fonts by the exact name given

---
 src/pdfmm/base/PdfFontConfigWrapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfFontConfigWrapper.cpp b/src/pdfmm/base/PdfFontConfigWrapper.cpp
index 4812a4f..029e0b2 100644
--- a/src/pdfmm/base/PdfFontConfigWrapper.cpp
+++ b/src/pdfmm/base/PdfFontConfigWrapper.cpp
@@ -43,7 +43,7 @@ string PdfFontConfigWrapper::GetFontConfigFontPath(const string_view fontName,
     bool isBold = (style & PdfFontStyle::Bold) == PdfFontStyle::Bold;
 
     // Build a pattern to search using postscript name, bold and italic
-    pattern = FcPatternBuild(0, FC_POSTSCRIPT_NAME, FcTypeString, fontName.data(),
+    pattern = FcPatternBuild(0, FC_POSTSCRIPT_NAME, FcTypeString, string(fontName).c_str(),
         FC_WEIGHT, FcTypeInteger, (isBold ? FC_WEIGHT_BOLD : FC_WEIGHT_MEDIUM),
         FC_SLANT, FcTypeInteger, (isItalic ? FC_SLANT_ITALIC : FC_SLANT_ROMAN),
         static_cast<char*>(0));
-- 
2.43.0


From 4f4decc30f4f2398ab0f384547e03e7c322a8981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:39 +0000
Subject: [PATCH 025/105] fix: check FontConfig results

---
 src/pdfmm/base/PdfFontConfigWrapper.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/pdfmm/base/PdfFontConfigWrapper.cpp b/src/pdfmm/base/PdfFontConfigWrapper.cpp
index 029e0b2..26545c5 100644
--- a/src/pdfmm/base/PdfFontConfigWrapper.cpp
+++ b/src/pdfmm/base/PdfFontConfigWrapper.cpp
@@ -48,6 +48,9 @@ string PdfFontConfigWrapper::GetFontConfigFontPath(const string_view fontName,
         FC_SLANT, FcTypeInteger, (isItalic ? FC_SLANT_ITALIC : FC_SLANT_ROMAN),
         static_cast<char*>(0));
 
+    if (pattern == nullptr)
+        PDFMM_RAISE_ERROR(PdfErrorCode::OutOfMemory);
+
     FcDefaultSubstitute(pattern);
 
     if (!FcConfigSubstitute(m_FcConfig, pattern, FcMatchFont))
@@ -59,12 +62,12 @@ string PdfFontConfigWrapper::GetFontConfigFontPath(const string_view fontName,
 
     string path;
     matched = FcFontMatch(m_FcConfig, pattern, &result);
-    if (result != FcResultNoMatch)
+    if (matched != nullptr && result != FcResultNoMatch)
     {
-        (void)FcPatternGet(matched, FC_FILE, 0, &value);
-        path = reinterpret_cast<const char*>(value.u.s);
-        (void)FcPatternGet(matched, FC_INDEX, 0, &value);
-        faceIndex = (unsigned)value.u.i;
+        if (FcPatternGet(matched, FC_FILE, 0, &value) == FcResultMatch)
+            path = reinterpret_cast<const char*>(value.u.s);
+        if (FcPatternGet(matched, FC_INDEX, 0, &value) == FcResultMatch)
+            faceIndex = (unsigned)value.u.i;
 #ifdef PDFMM_VERBOSE_DEBUG
         mm::LogMessage(PdfLogSeverity::Debug,
             "Got Font {}, face index {} for {}", path, faceIndex, fontName);
@@ -72,7 +75,8 @@ string PdfFontConfigWrapper::GetFontConfigFontPath(const string_view fontName,
     }
 
     FcPatternDestroy(pattern);
-    FcPatternDestroy(matched);
+    if (matched != nullptr)
+        FcPatternDestroy(matched);
     return path;
 }
 
@@ -161,7 +165,8 @@ void PdfFontConfigWrapper::createDefaultConfig()
         // Default initialize a local FontConfig configuration
         // http://mces.blogspot.com/2015/05/how-to-use-custom-application-fonts.html
         m_FcConfig = FcInitLoadConfigAndFonts();
-        PDFMM_ASSERT(m_FcConfig != nullptr);
+        if (m_FcConfig == nullptr)
+            PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidFontFile, "Could not load the font configuration");
 #ifdef HAS_FALLBACK_CONFIGURATION
     }
 #endif
-- 
2.43.0


From 3867b5daac9fee25cf108bbe64de416d48ed6387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:46 +0000
Subject: [PATCH 026/105] fix: build the shared encoding tables under a lock

---
 src/pdfmm/base/PdfEncodingMap.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pdfmm/base/PdfEncodingMap.cpp b/src/pdfmm/base/PdfEncodingMap.cpp
index f707770..7e309e7 100644
--- a/src/pdfmm/base/PdfEncodingMap.cpp
+++ b/src/pdfmm/base/PdfEncodingMap.cpp
@@ -7,6 +7,7 @@
 #include <pdfmm/private/PdfDeclarationsPrivate.h>
 #include "PdfEncodingMap.h"
 
+#include <mutex>
 #include <utfcpp/utf8.h>
 
 #include "PdfDictionary.h"
@@ -530,6 +531,9 @@ PdfBuiltInEncoding::PdfBuiltInEncoding(const PdfName& name)
 
 void PdfBuiltInEncoding::InitEncodingTable()
 {
+    // Predefined encodings are shared between documents
+    static mutex s_mutex;
+    lock_guard<mutex> lock(s_mutex);
     if (!m_EncodingTable.empty())
         return;
 
-- 
2.43.0


From 50661be61efec44e59d3e5022d571f747f80b2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:46 +0000
Subject: [PATCH 027/105] fix: initialize shared font metrics under a lock

---
 src/pdfmm/base/PdfFontMetrics.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/pdfmm/base/PdfFontMetrics.cpp b/src/pdfmm/base/PdfFontMetrics.cpp
index 731ba8f..522f5ca 100644
--- a/src/pdfmm/base/PdfFontMetrics.cpp
+++ b/src/pdfmm/base/PdfFontMetrics.cpp
@@ -7,6 +7,7 @@
 #include <pdfmm/private/PdfDeclarationsPrivate.h>
 #include "PdfFontMetrics.h"
 
+#include <mutex>
 #include <pdfmm/private/FreetypePrivate.h>
 
 #include "PdfArray.h"
@@ -19,6 +20,12 @@
 using namespace std;
 using namespace mm;
 
+static recursive_mutex& getLazyInitMutex()
+{
+    static recursive_mutex s_mutex;
+    return s_mutex;
+}
+
 // Default matrix: thousands of PDF units
 static Matrix2D s_DefaultMatrix = { 1e-3, 0.0, 0.0, 1e-3, 0, 0 };
 
@@ -175,6 +182,7 @@ double PdfFontMetrics::GetDefaultWidth() const
 
 PdfFontStyle PdfFontMetrics::GetStyle() const
 {
+    lock_guard<recursive_mutex> lock(getLazyInitMutex());
     if (m_Style.has_value())
         return *m_Style;
 
@@ -330,6 +338,8 @@ PdfFontMetricsBase::PdfFontMetricsBase()
 
 const datahandle& PdfFontMetricsBase::GetFontFileDataHandle() const
 {
+    // Metrics of standard fonts are shared between documents
+    lock_guard<recursive_mutex> lock(getLazyInitMutex());
     if (!m_dataInit)
     {
         auto& rthis = const_cast<PdfFontMetricsBase&>(*this);
@@ -342,6 +352,7 @@ const datahandle& PdfFontMetricsBase::GetFontFileDataHandle() const
 
 const FreeTypeFacePtr& PdfFontMetricsBase::GetFaceHandle() const
 {
+    lock_guard<recursive_mutex> lock(getLazyInitMutex());
     if (!m_faceInit)
     {
         auto& rthis = const_cast<PdfFontMetricsBase&>(*this);
-- 
2.43.0


From 71533fc4f7cf008b15159ede9afeca718212ec4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:46 +0000
Subject: [PATCH 028/105] fix: create and release FreeType faces under a lock

---
 src/pdfmm/base/PdfFontManager.cpp     |  7 +++++--
 src/pdfmm/base/PdfFontMetrics.cpp     |  4 ++--
 src/pdfmm/private/FreetypePrivate.cpp | 14 ++++++++++++++
 src/pdfmm/private/FreetypePrivate.h   |  6 ++++++
 4 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/pdfmm/base/PdfFontManager.cpp b/src/pdfmm/base/PdfFontManager.cpp
index c2fd370..4dce37c 100644
--- a/src/pdfmm/base/PdfFontManager.cpp
+++ b/src/pdfmm/base/PdfFontManager.cpp
@@ -486,7 +486,10 @@ unique_ptr<charbuff> getFontData(const string_view& filename, unsigned short fac
     FT_ULong length = 0;
     unique_ptr<charbuff> buffer;
     FT_Face face;
-    rc = FT_New_Face(mm::GetFreeTypeLibrary(), filename.data(), faceIndex, &face);
+    {
+        lock_guard<recursive_mutex> lock(mm::GetFreeTypeMutex());
+        rc = FT_New_Face(mm::GetFreeTypeLibrary(), string(filename).c_str(), faceIndex, &face);
+    }
     if (rc != 0)
     {
         // throw an exception
@@ -495,7 +498,7 @@ unique_ptr<charbuff> getFontData(const string_view& filename, unsigned short fac
         return nullptr;
     }
 
-    unique_ptr<FT_FaceRec_, decltype(&FT_Done_Face)> face_(face, FT_Done_Face);
+    unique_ptr<FT_FaceRec_, decltype(&mm::DoneFreeTypeFace)> face_(face, mm::DoneFreeTypeFace);
     rc = FT_Load_Sfnt_Table(face, 0, 0, nullptr, &length);
     if (rc != 0)
         goto Error;
diff --git a/src/pdfmm/base/PdfFontMetrics.cpp b/src/pdfmm/base/PdfFontMetrics.cpp
index 522f5ca..6c0ec4e 100644
--- a/src/pdfmm/base/PdfFontMetrics.cpp
+++ b/src/pdfmm/base/PdfFontMetrics.cpp
@@ -372,9 +372,9 @@ const FreeTypeFacePtr& PdfFontMetricsBase::GetFaceHandle() const
 FreeTypeFacePtr::FreeTypeFacePtr() { }
 
 FreeTypeFacePtr::FreeTypeFacePtr(FT_Face face)
-    : shared_ptr<FT_FaceRec_>(face, FT_Done_Face) {}
+    : shared_ptr<FT_FaceRec_>(face, mm::DoneFreeTypeFace) {}
 
 void FreeTypeFacePtr::reset(FT_Face face)
 {
-    shared_ptr<FT_FaceRec_>::reset(face, FT_Done_Face);
+    shared_ptr<FT_FaceRec_>::reset(face, mm::DoneFreeTypeFace);
 }
diff --git a/src/pdfmm/private/FreetypePrivate.cpp b/src/pdfmm/private/FreetypePrivate.cpp
index cd99bff..afd01aa 100644
--- a/src/pdfmm/private/FreetypePrivate.cpp
+++ b/src/pdfmm/private/FreetypePrivate.cpp
@@ -8,6 +8,7 @@
 #include "FreetypePrivate.h"
 #include FT_TRUETYPE_TABLES_H
 
+using namespace std;
 using namespace mm;
 
 FT_Library mm::GetFreeTypeLibrary()
@@ -34,6 +35,18 @@ FT_Library mm::GetFreeTypeLibrary()
     return init.Library;
 }
 
+recursive_mutex& mm::GetFreeTypeMutex()
+{
+    static recursive_mutex s_mutex;
+    return s_mutex;
+}
+
+void mm::DoneFreeTypeFace(FT_Face face)
+{
+    lock_guard<recursive_mutex> lock(GetFreeTypeMutex());
+    FT_Done_Face(face);
+}
+
 bool mm::TryCreateFreeTypeFace(const bufferview& view, FT_Face& face)
 {
     FT_Error rc;
@@ -44,6 +57,7 @@ bool mm::TryCreateFreeTypeFace(const bufferview& view, FT_Face& face)
     openArgs.memory_base = (const FT_Byte*)view.data();
     openArgs.memory_size = (FT_Long)view.size();
 
+    lock_guard<recursive_mutex> lock(GetFreeTypeMutex());
     rc = FT_Open_Face(mm::GetFreeTypeLibrary(), &openArgs, 0, &face);
     if (rc != 0)
     {
diff --git a/src/pdfmm/private/FreetypePrivate.h b/src/pdfmm/private/FreetypePrivate.h
index 3b9365b..2b6cf6b 100644
--- a/src/pdfmm/private/FreetypePrivate.h
+++ b/src/pdfmm/private/FreetypePrivate.h
@@ -11,6 +11,8 @@
 #include <ft2build.h>
 #include FT_FREETYPE_H
 
+#include <mutex>
+
 #include <pdfmm/base/basedefs.h>
 
 #define CHECK_FT_RC(rc, func) if (rc != 0)\
@@ -19,6 +21,10 @@
 namespace mm
 {
     FT_Library GetFreeTypeLibrary();
+    // NOTE: Faces of the same library must not be created
+    // or released at the same time by different threads
+    std::recursive_mutex& GetFreeTypeMutex();
+    void DoneFreeTypeFace(FT_Face face);
     bool TryCreateFreeTypeFace(const bufferview& view, FT_Face& face);
     FT_Face CreateFreeTypeFace(const bufferview& view);
     charbuff GetDataFromFace(FT_Face face);
-- 
2.43.0


From e171daf8280d774a7eda5c00a29515357f2f8a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:46 +0000
Subject: [PATCH 029/105] fix: initialize the shared font configuration under a
 lock

---
 src/pdfmm/base/PdfFontManager.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pdfmm/base/PdfFontManager.cpp b/src/pdfmm/base/PdfFontManager.cpp
index 4dce37c..57c9a45 100644
--- a/src/pdfmm/base/PdfFontManager.cpp
+++ b/src/pdfmm/base/PdfFontManager.cpp
@@ -8,6 +8,7 @@
 #include "PdfFontManager.h"
 
 #include <algorithm>
+#include <mutex>
 
 #if defined(_WIN32) && defined(PDFMM_HAVE_WIN32GDI)
 #include <pdfmm/private/WindowsLeanMean.h>
@@ -43,6 +44,7 @@ static PdfFont* matchFont(const mspan<PdfFont*>& fonts, const string_view& fontN
 
 #if defined(PDFMM_HAVE_FONTCONFIG)
 shared_ptr<PdfFontConfigWrapper> PdfFontManager::m_fontConfig;
+static mutex s_fontConfigMutex;
 #endif
 
 static constexpr unsigned SUBSET_PREFIX_LEN = 6;
@@ -432,6 +434,7 @@ PdfFont* PdfFontManager::getImportedFont(const PdfFontMetricsConstPtr& metrics,
 
 void PdfFontManager::SetFontConfigWrapper(const shared_ptr<PdfFontConfigWrapper>& fontConfig)
 {
+    lock_guard<mutex> lock(s_fontConfigMutex);
     if (m_fontConfig == fontConfig)
         return;
 
@@ -449,6 +452,7 @@ PdfFontConfigWrapper& PdfFontManager::GetFontConfigWrapper()
 
 shared_ptr<PdfFontConfigWrapper> PdfFontManager::ensureInitializedFontConfig()
 {
+    lock_guard<mutex> lock(s_fontConfigMutex);
     auto ret = m_fontConfig;
     if (ret == nullptr)
     {
-- 
2.43.0


From 122be24bdf82ac89d8ad0a9d946708ee0f2e3a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:46 +0000
Subject: [PATCH 030/105] fix: set the global TIFF handlers only once

---
 src/pdfmm/base/PdfImage.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/pdfmm/base/PdfImage.cpp b/src/pdfmm/base/PdfImage.cpp
index 24462f2..7066349 100644
--- a/src/pdfmm/base/PdfImage.cpp
+++ b/src/pdfmm/base/PdfImage.cpp
@@ -653,6 +653,17 @@ static void TIFFErrorWarningHandler(const char*, const char*, va_list)
     // Do nothing
 }
 
+static void initTiffHandlers()
+{
+    // NOTE: The handlers are global to the process
+    static bool s_init = [] {
+        TIFFSetErrorHandler(TIFFErrorWarningHandler);
+        TIFFSetWarningHandler(TIFFErrorWarningHandler);
+        return true;
+    }();
+    (void)s_init;
+}
+
 void PdfImage::loadFromTiffHandle(void* handle)
 {
     TIFF* hInTiffHandle = (TIFF*)handle;
@@ -842,8 +853,7 @@ void PdfImage::loadFromTiffHandle(void* handle)
 
 void PdfImage::loadFromTiff(const string_view& filename)
 {
-    TIFFSetErrorHandler(TIFFErrorWarningHandler);
-    TIFFSetWarningHandler(TIFFErrorWarningHandler);
+    initTiffHandlers();
 
     if (filename.length() == 0)
         PDFMM_RAISE_ERROR(PdfErrorCode::InvalidHandle);
@@ -980,8 +990,7 @@ void tiff_Unmap(thandle_t, tdata_t, toff_t)
 };
 void PdfImage::loadFromTiffData(const unsigned char* data, size_t len)
 {
-    TIFFSetErrorHandler(TIFFErrorWarningHandler);
-    TIFFSetWarningHandler(TIFFErrorWarningHandler);
+    initTiffHandlers();
 
     if (data == nullptr)
         PDFMM_RAISE_ERROR(PdfErrorCode::InvalidHandle);
-- 
2.43.0


From 25c31cf3e5d552a85618faa9b2b04acf9f23d21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:46 +0000
Subject: [PATCH 031/105] fix: do not use the shared buffer of localtime

---
 src/pdfmm/base/PdfDate.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/pdfmm/base/PdfDate.cpp b/src/pdfmm/base/PdfDate.cpp
index 9683b4c..1fd896f 100644
--- a/src/pdfmm/base/PdfDate.cpp
+++ b/src/pdfmm/base/PdfDate.cpp
@@ -409,10 +409,14 @@ chrono::seconds getSecondsFromEpoch()
 int getLocalOffesetFromUTCMinutes()
 {
     time_t t = time(nullptr);
-    struct tm* locg = localtime(&t);
-    struct tm locl;
-    memcpy(&locl, locg, sizeof(struct tm));
-    return (int)(timegm(locg) - mktime(&locl)) / 60;
+    struct tm locg;
+#ifdef _WIN32
+    localtime_s(&locg, &t);
+#else
+    localtime_r(&t, &locg);
+#endif
+    struct tm locl = locg;
+    return (int)(timegm(&locg) - mktime(&locl)) / 60;
 }
 
 bool tryReadShiftChar(const char*& in, int& zoneShift)
-- 
2.43.0


From f702760dfe49bf863717c7af553ea2c063f03426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:06 +0000
Subject: [PATCH 032/105] fix: generate AES-256 keys, salts and initial vectors
 with the cryptographic random generator

---
 src/pdfmm/base/PdfEncrypt.cpp | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/src/pdfmm/base/PdfEncrypt.cpp b/src/pdfmm/base/PdfEncrypt.cpp
index 1964012..0e6597f 100644
--- a/src/pdfmm/base/PdfEncrypt.cpp
+++ b/src/pdfmm/base/PdfEncrypt.cpp
@@ -27,6 +27,7 @@
 #include <openssl/opensslconf.h>
 #include <openssl/md5.h>
 #include <openssl/evp.h>
+#include <openssl/rand.h>
 
 using namespace std;
 using namespace mm;
@@ -427,6 +428,14 @@ bool PdfEncrypt::IsEncryptionEnabled(PdfEncryptAlgorithm algorithm)
     return (PdfEncrypt::s_EnabledEncryptionAlgorithms & algorithm) != PdfEncryptAlgorithm::None;
 }
 
+#ifdef PDFMM_HAVE_LIBIDN
+static void generateRandom(unsigned char* buffer, size_t size)
+{
+    if (RAND_bytes(buffer, (int)size) != 1)
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InternalLogic, "Error generating random data");
+}
+#endif // PDFMM_HAVE_LIBIDN
+
 static unsigned char padding[] =
 "\x28\xBF\x4E\x5E\x4E\x75\x8A\x41\x64\x00\x4E\x56\xFF\xFA\x01\x08\x2E\x2E\x00\xB6\xD0\x68\x3E\x80\x2F\x0C\xA9\xFE\x64\x53\x69\x7A";
 
@@ -1504,11 +1513,8 @@ void PdfEncryptSHABase::ComputeUserKey(const unsigned char* userpswd, size_t len
     unsigned char vSalt[8];
     unsigned char kSalt[8];
 
-    for (int i = 0; i < 8; i++)
-    {
-        vSalt[i] = rand() % 255;
-        kSalt[i] = rand() % 255;
-    }
+    generateRandom(vSalt, 8);
+    generateRandom(kSalt, 8);
 
     // Generate hash for U
     unsigned char hashValue[32];
@@ -1550,11 +1556,8 @@ void PdfEncryptSHABase::ComputeOwnerKey(const unsigned char* ownerpswd, size_t l
     unsigned char vSalt[8];
     unsigned char kSalt[8];
 
-    for (int i = 0; i < 8; i++)
-    {
-        vSalt[i] = rand() % 255;
-        kSalt[i] = rand() % 255;
-    }
+    generateRandom(vSalt, 8);
+    generateRandom(kSalt, 8);
 
     // Generate hash for O
     unsigned char hashValue[32];
@@ -1608,11 +1611,7 @@ void PdfEncryptSHABase::PreprocessPassword(const string_view& password, unsigned
 
 void PdfEncryptSHABase::ComputeEncryptionKey()
 {
-    // Seed once for all
-    srand((unsigned)time(nullptr));
-
-    for (unsigned i = 0; i < m_keyLength; i++)
-        m_encryptionKey[i] = rand() % 255;
+    generateRandom(m_encryptionKey, m_keyLength);
 }
     
 bool PdfEncryptSHABase::Authenticate(const std::string_view& documentID, const std::string_view& password,
@@ -1636,8 +1635,7 @@ bool PdfEncryptSHABase::Authenticate(const std::string_view& documentID, const s
     
 void PdfEncryptSHABase::GenerateInitialVector(unsigned char iv[]) const
 {
-    for (int i = 0; i < AES_IV_LENGTH; i++)
-        iv[i] = rand() % 255;
+    generateRandom(iv, AES_IV_LENGTH);
 }
     
 void PdfEncryptSHABase::CreateEncryptionDictionary(PdfDictionary& dictionary) const
-- 
2.43.0


From b2612b3543aa0ba9f65250ce30a8e479e6dc3b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:58 +0000
Subject: [PATCH 033/105] fix: initialize PdfParser::m_FileSize

---
 src/pdfmm/base/PdfParser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pdfmm/base/PdfParser.cpp b/src/pdfmm/base/PdfParser.cpp
index 2421ce7..88dda3c 100644
--- a/src/pdfmm/base/PdfParser.cpp
+++ b/src/pdfmm/base/PdfParser.cpp
@@ -55,6 +55,7 @@ void PdfParser::Reset()
     m_LoadOnDemand = false;
 
     m_magicOffset = 0;
+    m_FileSize = 0;
     m_HasXRefStream = false;
     m_XRefOffset = 0;
     m_XRefLinearizedOffset = 0;
-- 
2.43.0


From 75397b4b2f20f88f5245c10acde4c6ac962531ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:58 +0000
Subject: [PATCH 034/105] fix: always set eof when reading AES encrypted
 streams

---
 src/pdfmm/base/PdfEncrypt.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pdfmm/base/PdfEncrypt.cpp b/src/pdfmm/base/PdfEncrypt.cpp
index 0e6597f..a76b28e 100644
--- a/src/pdfmm/base/PdfEncrypt.cpp
+++ b/src/pdfmm/base/PdfEncrypt.cpp
@@ -306,6 +306,7 @@ protected:
         int outlen = 0;
         size_t drainLen;
         size_t read;
+        eof = false;
         if (m_inputEof)
             goto DrainBuffer;
 
-- 
2.43.0


From be167383776fd68412c3f44d71244f87789d0d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:58 +0000
Subject: [PATCH 035/105] fix: report the end of all the content streams, not
 of the last one read

---
 src/pdfmm/base/PdfCanvasInputDevice.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfCanvasInputDevice.cpp b/src/pdfmm/base/PdfCanvasInputDevice.cpp
index 1c0cb19..5357cfd 100644
--- a/src/pdfmm/base/PdfCanvasInputDevice.cpp
+++ b/src/pdfmm/base/PdfCanvasInputDevice.cpp
@@ -92,6 +92,8 @@ size_t PdfCanvasInputDevice::readBuffer(char* buffer, size_t size, bool& eof)
 
     size_t read;
     size_t count = 0;
+    bool deviceEof;
+    eof = false;
     InputStreamDevice* device = nullptr;
     while (true)
     {
@@ -121,7 +123,7 @@ size_t PdfCanvasInputDevice::readBuffer(char* buffer, size_t size, bool& eof)
         // Span reads into multple input devices
         // NOTE: we ignore if the device reached EOF, and
         // we try pop another device at the next iteration
-        read = device->Read(buffer + count, size, eof);
+        read = device->Read(buffer + count, size, deviceEof);
         size -= read;
         count += read;
     }
-- 
2.43.0


From d96bbf292246bca5d8c4b93d2aec8823c4753685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:58 +0000
Subject: [PATCH 036/105] fix: check for a missing palette when loading PNG
 images

---
 src/pdfmm/base/PdfImage.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfImage.cpp b/src/pdfmm/base/PdfImage.cpp
index 7066349..1832db6 100644
--- a/src/pdfmm/base/PdfImage.cpp
+++ b/src/pdfmm/base/PdfImage.cpp
@@ -1271,7 +1271,8 @@ void LoadFromPngContent(PdfImage& image, png_structp png, png_infop pnginfo)
     {
         png_color* colors;
         int colorCount;
-        png_get_PLTE(png, pnginfo, &colors, &colorCount);
+        if (png_get_PLTE(png, pnginfo, &colors, &colorCount) == 0)
+            PDFMM_RAISE_ERROR_INFO(PdfErrorCode::UnsupportedImageFormat, "Missing palette in the PNG image");
 
         charbuff data(colorCount * 3);
         for (int i = 0; i < colorCount; i++, colors++)
-- 
2.43.0


From e1eb282a57649b82e6b3e5c3f35f106bda33bc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:13 +0000
Subject: [PATCH 037/105] fix: keep the compressed content when writing a
 stream without filters

---
 src/pdfmm/base/PdfObject.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfObject.cpp b/src/pdfmm/base/PdfObject.cpp
index b9c16f3..52c37d9 100644
--- a/src/pdfmm/base/PdfObject.cpp
+++ b/src/pdfmm/base/PdfObject.cpp
@@ -251,7 +251,7 @@ void PdfObject::Write(OutputStreamDevice& device, PdfWriteFlags writeMode,
                 input.CopyTo(output);
             }
 
-            stream.MoveFrom(*m_Stream);
+            m_Stream->MoveFrom(stream);
         }
 
         // Set length if it's not handled by the underlying provider
-- 
2.43.0


From 300a1185f2d729e186a2f447534a19fd3d25364f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:13 +0000
Subject: [PATCH 038/105] fix: load objects on demand before moving from them

---
 src/pdfmm/base/PdfObject.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfObject.cpp b/src/pdfmm/base/PdfObject.cpp
index 52c37d9..506ee5b 100644
--- a/src/pdfmm/base/PdfObject.cpp
+++ b/src/pdfmm/base/PdfObject.cpp
@@ -111,10 +111,11 @@ PdfObject::PdfObject(const PdfObject& rhs)
 // always detached. Ownership will be set automatically elsewhere.
 // Also don't move reference
 PdfObject::PdfObject(PdfObject&& rhs) noexcept :
-    m_Variant(std::move(rhs.m_Variant)),
     m_IsDirty(false)
 {
     initObject();
+    rhs.DelayedLoad();
+    m_Variant = std::move(rhs.m_Variant);
     SetVariantOwner();
     moveStreamFrom(rhs);
 }
-- 
2.43.0


From a4197954f5a7272433184370000715b1c2f7f478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:13 +0000
Subject: [PATCH 039/105] fix: link moved streams to the object that now owns
 them

---
 src/pdfmm/base/PdfObject.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pdfmm/base/PdfObject.cpp b/src/pdfmm/base/PdfObject.cpp
index 506ee5b..7c610cf 100644
--- a/src/pdfmm/base/PdfObject.cpp
+++ b/src/pdfmm/base/PdfObject.cpp
@@ -394,6 +394,8 @@ void PdfObject::moveStreamFrom(PdfObject& obj)
 {
     obj.DelayedLoadStream();
     m_Stream = std::move(obj.m_Stream);
+    if (m_Stream != nullptr)
+        m_Stream->m_Parent = this;
 }
 
 void PdfObject::EnableDelayedLoading()
-- 
2.43.0


From 2a74a5a806d4f643d2b39ab84da024cb8ace0ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:13 +0000
Subject: [PATCH 040/105] fix: keep the ownership of the elements when arrays
 grow

---
 src/pdfmm/base/PdfArray.cpp | 20 ++++++++++++++------
 src/pdfmm/base/PdfArray.h   |  6 +-----
 2 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/pdfmm/base/PdfArray.cpp b/src/pdfmm/base/PdfArray.cpp
index c8e83eb..aae701f 100644
--- a/src/pdfmm/base/PdfArray.cpp
+++ b/src/pdfmm/base/PdfArray.cpp
@@ -237,8 +237,14 @@ PdfObject& PdfArray::add(PdfObject&& obj)
 
 PdfArray::iterator PdfArray::insertAt(const iterator& pos, PdfObject&& obj)
 {
+    bool append = pos == m_Objects.end();
+    size_t capacity = m_Objects.capacity();
     auto ret = m_Objects.emplace(pos, std::move(obj));
-    ret->SetParent(*this);
+    // NOTE: Elements that are moved to new storage lose their parent
+    if (append && m_Objects.capacity() == capacity)
+        ret->SetParent(*this);
+    else
+        setChildrenParent();
     return ret;
 }
 
@@ -299,11 +305,7 @@ void PdfArray::Resize(unsigned count, const PdfObject& val)
 {
     size_t currentSize = m_Objects.size();
     m_Objects.resize(count, val);
-    for (size_t i = currentSize; i < count; i++)
-    {
-        auto& obj = m_Objects[i];
-        obj.SetParent(*this);
-    }
+    setChildrenParent();
 
     if (currentSize != count)
         SetDirty();
@@ -312,6 +314,7 @@ void PdfArray::Resize(unsigned count, const PdfObject& val)
 void PdfArray::Reserve(unsigned n)
 {
     m_Objects.reserve(n);
+    setChildrenParent();
 }
 
 PdfObject& PdfArray::operator[](size_type idx)
@@ -370,7 +373,11 @@ void PdfArray::resize(size_t size)
     if (size > numeric_limits<unsigned>::max())
         PDFMM_RAISE_ERROR_INFO(PdfErrorCode::ValueOutOfRange, "Too big size");
 #endif
+    size_t currentSize = m_Objects.size();
     m_Objects.resize(size);
+    setChildrenParent();
+    if (currentSize != size)
+        SetDirty();
 }
 
 void PdfArray::reserve(size_t size)
@@ -380,6 +387,7 @@ void PdfArray::reserve(size_t size)
         PDFMM_RAISE_ERROR_INFO(PdfErrorCode::ValueOutOfRange, "Too big size");
 #endif
     m_Objects.reserve(size);
+    setChildrenParent();
 }
 
 PdfObject& PdfArray::front()
diff --git a/src/pdfmm/base/PdfArray.h b/src/pdfmm/base/PdfArray.h
index 0b65b56..a6fff49 100644
--- a/src/pdfmm/base/PdfArray.h
+++ b/src/pdfmm/base/PdfArray.h
@@ -379,14 +379,10 @@ void PdfArray::insert(const PdfArray::iterator& pos,
     const InputIterator& first,
     const InputIterator& last)
 {
-    auto document = GetObjectDocument();
     InputIterator it1 = first;
     iterator it2 = pos;
     for (; it1 != last; it1++, it2++)
-    {
-        it2 = m_Objects.insert(it2, *it1);
-        it2->SetDocument(document);
-    }
+        it2 = insertAt(it2, PdfObject(*it1));
 
     SetDirty();
 }
-- 
2.43.0


From b9a4ea0be90873605f58dc6a10099675658e0817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:13 +0000
Subject: [PATCH 041/105] fix: mark the owner as modified when arrays and
 dictionaries are assigned

---
 src/pdfmm/base/PdfArray.cpp      | 2 ++
 src/pdfmm/base/PdfDictionary.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/pdfmm/base/PdfArray.cpp b/src/pdfmm/base/PdfArray.cpp
index aae701f..da947e8 100644
--- a/src/pdfmm/base/PdfArray.cpp
+++ b/src/pdfmm/base/PdfArray.cpp
@@ -67,6 +67,7 @@ PdfArray& PdfArray::operator=(const PdfArray& rhs)
 {
     m_Objects = rhs.m_Objects;
     setChildrenParent();
+    SetDirty();
     return *this;
 }
 
@@ -74,6 +75,7 @@ PdfArray& PdfArray::operator=(PdfArray&& rhs) noexcept
 {
     m_Objects = std::move(rhs.m_Objects);
     setChildrenParent();
+    SetDirty();
     return *this;
 }
 
diff --git a/src/pdfmm/base/PdfDictionary.cpp b/src/pdfmm/base/PdfDictionary.cpp
index 582fd24..c513f6e 100644
--- a/src/pdfmm/base/PdfDictionary.cpp
+++ b/src/pdfmm/base/PdfDictionary.cpp
@@ -30,6 +30,7 @@ PdfDictionary& PdfDictionary::operator=(const PdfDictionary& rhs)
 {
     m_Map = rhs.m_Map;
     setChildrenParent();
+    SetDirty();
     return *this;
 }
 
@@ -37,6 +38,7 @@ PdfDictionary& PdfDictionary::operator=(PdfDictionary&& rhs) noexcept
 {
     m_Map = std::move(rhs.m_Map);
     setChildrenParent();
+    SetDirty();
     return *this;
 }
 
-- 
2.43.0


From dd28311ee925375cd6cd0eba32eb299077832ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:35 +0000
Subject: [PATCH 042/105] fix: allow assigning a variant to itself or one of
 its own elements

---
 src/pdfmm/base/PdfVariant.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/pdfmm/base/PdfVariant.cpp b/src/pdfmm/base/PdfVariant.cpp
index 170c458..1d88363 100644
--- a/src/pdfmm/base/PdfVariant.cpp
+++ b/src/pdfmm/base/PdfVariant.cpp
@@ -239,18 +239,19 @@ void PdfVariant::ToString(string& str) const
 
 PdfVariant& PdfVariant::operator=(const PdfVariant& rhs)
 {
-    clear();
-    assign(rhs);
+    // NOTE: rhs may be this variant or be contained in it
+    PdfVariant temp(rhs);
+    std::swap(m_Data, temp.m_Data);
+    std::swap(m_DataType, temp.m_DataType);
     return *this;
 }
 
 PdfVariant& PdfVariant::operator=(PdfVariant&& rhs) noexcept
 {
-    clear();
-    m_DataType = rhs.m_DataType;
-    m_Data = rhs.m_Data;
-    rhs.m_DataType = PdfDataType::Null;
-    rhs.m_Data = { };
+    // NOTE: rhs may be this variant or be contained in it
+    PdfVariant temp(std::move(rhs));
+    std::swap(m_Data, temp.m_Data);
+    std::swap(m_DataType, temp.m_DataType);
     return *this;
 }
 
-- 
2.43.0


From 6bd5321ef31073e3436b152017795ba1bb202a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:05 +0000
Subject: [PATCH 043/105] fix: correct the comparison operators of variants,
 objects and dictionaries

---
 src/pdfmm/base/PdfDictionary.cpp |  4 ++--
 src/pdfmm/base/PdfObject.cpp     | 12 ++++++------
 src/pdfmm/base/PdfVariant.cpp    |  8 ++++----
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/pdfmm/base/PdfDictionary.cpp b/src/pdfmm/base/PdfDictionary.cpp
index c513f6e..39fd840 100644
--- a/src/pdfmm/base/PdfDictionary.cpp
+++ b/src/pdfmm/base/PdfDictionary.cpp
@@ -53,8 +53,8 @@ bool PdfDictionary::operator==(const PdfDictionary& rhs) const
 
 bool PdfDictionary::operator!=(const PdfDictionary& rhs) const
 {
-    if (this != &rhs)
-        return true;
+    if (this == &rhs)
+        return false;
 
     // We don't check owner
     return m_Map != rhs.m_Map;
diff --git a/src/pdfmm/base/PdfObject.cpp b/src/pdfmm/base/PdfObject.cpp
index 7c610cf..f75db70 100644
--- a/src/pdfmm/base/PdfObject.cpp
+++ b/src/pdfmm/base/PdfObject.cpp
@@ -823,9 +823,9 @@ bool PdfObject::operator==(const PdfObject& rhs) const
     if (this == &rhs)
         return true;
 
-    if (m_IndirectReference.IsIndirect())
+    if (m_IndirectReference.IsIndirect() || rhs.m_IndirectReference.IsIndirect())
     {
-        // If lhs is indirect, just check document and reference
+        // If any is indirect, just check document and reference
         return m_Document == rhs.m_Document &&
             m_IndirectReference == rhs.m_IndirectReference;
     }
@@ -840,12 +840,12 @@ bool PdfObject::operator==(const PdfObject& rhs) const
 
 bool PdfObject::operator!=(const PdfObject& rhs) const
 {
-    if (this != &rhs)
-        return true;
+    if (this == &rhs)
+        return false;
 
-    if (m_IndirectReference.IsIndirect())
+    if (m_IndirectReference.IsIndirect() || rhs.m_IndirectReference.IsIndirect())
     {
-        // If lhs is indirect, just check document and reference
+        // If any is indirect, just check document and reference
         return m_Document != rhs.m_Document ||
             m_IndirectReference != rhs.m_IndirectReference;
     }
diff --git a/src/pdfmm/base/PdfVariant.cpp b/src/pdfmm/base/PdfVariant.cpp
index 1d88363..dadb4d1 100644
--- a/src/pdfmm/base/PdfVariant.cpp
+++ b/src/pdfmm/base/PdfVariant.cpp
@@ -406,7 +406,7 @@ bool PdfVariant::operator==(const PdfVariant& rhs) const
         case PdfDataType::RawData:
             PDFMM_RAISE_ERROR_INFO(PdfErrorCode::NotImplemented, "Equality not yet implemented for RawData");
         case PdfDataType::Null:
-            return m_DataType == PdfDataType::Null;
+            return rhs.m_DataType == PdfDataType::Null;
         case PdfDataType::Unknown:
             return false;
         default:
@@ -416,8 +416,8 @@ bool PdfVariant::operator==(const PdfVariant& rhs) const
 
 bool PdfVariant::operator!=(const PdfVariant& rhs) const
 {
-    if (this != &rhs)
-        return true;
+    if (this == &rhs)
+        return false;
 
     switch (m_DataType)
     {
@@ -489,7 +489,7 @@ bool PdfVariant::operator!=(const PdfVariant& rhs) const
         case PdfDataType::RawData:
             PDFMM_RAISE_ERROR_INFO(PdfErrorCode::NotImplemented, "Disequality not yet implemented for RawData");
         case PdfDataType::Null:
-            return m_DataType != PdfDataType::Null;
+            return rhs.m_DataType != PdfDataType::Null;
         case PdfDataType::Unknown:
             return true;
         default:
-- 
2.43.0


From 48a8bb04bc324d53390acca344c5f983ee80fdb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:05 +0000
Subject: [PATCH 044/105] fix: allow assigning an object to itself or one of
 its own elements

---
 src/pdfmm/base/PdfObject.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/pdfmm/base/PdfObject.cpp b/src/pdfmm/base/PdfObject.cpp
index f75db70..45483cb 100644
--- a/src/pdfmm/base/PdfObject.cpp
+++ b/src/pdfmm/base/PdfObject.cpp
@@ -366,14 +366,18 @@ void PdfObject::delayedLoadStream() const
 //        For dictionaries/lists maybe we can rely on auomatic dirty set
 PdfObject& PdfObject::operator=(const PdfObject& rhs)
 {
-    assign(rhs);
+    if (this != &rhs)
+        assign(rhs);
+
     SetDirty();
     return *this;
 }
 
 PdfObject& PdfObject::operator=(PdfObject&& rhs) noexcept
 {
-    moveFrom(rhs);
+    if (this != &rhs)
+        moveFrom(rhs);
+
     SetDirty();
     return *this;
 }
@@ -435,7 +439,9 @@ void PdfObject::SetParent(PdfDataContainer& parent)
 void PdfObject::assign(const PdfObject& rhs)
 {
     rhs.DelayedLoad();
-    m_Variant = rhs.m_Variant;
+    // NOTE: rhs may be contained in the previous value
+    PdfVariant variant(rhs.m_Variant);
+    std::swap(m_Variant, variant);
     m_IsDelayedLoadDone = true;
     SetVariantOwner();
     copyStreamFrom(rhs);
@@ -447,7 +453,9 @@ void PdfObject::assign(const PdfObject& rhs)
 void PdfObject::moveFrom(PdfObject& rhs)
 {
     rhs.DelayedLoad();
-    m_Variant = std::move(rhs.m_Variant);
+    // NOTE: rhs may be contained in the previous value
+    PdfVariant variant(std::move(rhs.m_Variant));
+    std::swap(m_Variant, variant);
     m_IsDelayedLoadDone = true;
     SetVariantOwner();
     moveStreamFrom(rhs);
-- 
2.43.0


From 318e35252103dc171063d1f293ae84158bc4e104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:05 +0000
Subject: [PATCH 045/105] fix: mark the object as modified whenever its stream
 is replaced

---
 src/pdfmm/base/PdfObjectStream.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pdfmm/base/PdfObjectStream.cpp b/src/pdfmm/base/PdfObjectStream.cpp
index f29f152..5113078 100644
--- a/src/pdfmm/base/PdfObjectStream.cpp
+++ b/src/pdfmm/base/PdfObjectStream.cpp
@@ -34,18 +34,21 @@ PdfObjectStream::~PdfObjectStream() { }
 PdfObjectOutputStream PdfObjectStream::GetOutputStreamRaw(bool append)
 {
     ensureClosed();
+    m_Parent->SetDirty();
     return PdfObjectOutputStream(*this, PdfFilterList(), append);
 }
 
 PdfObjectOutputStream PdfObjectStream::GetOutputStream(bool append)
 {
     ensureClosed();
+    m_Parent->SetDirty();
     return PdfObjectOutputStream(*this, { DefaultFilter }, append);
 }
 
 PdfObjectOutputStream PdfObjectStream::GetOutputStream(const PdfFilterList& filters, bool append)
 {
     ensureClosed();
+    m_Parent->SetDirty();
     return PdfObjectOutputStream(*this, PdfFilterList(filters), append);
 }
 
@@ -235,6 +238,8 @@ void PdfObjectStream::MoveFrom(PdfObjectStream& rhs)
     }
 
     m_Filters = std::move(rhs.m_Filters);
+    m_Parent->SetDirty();
+    rhs.m_Parent->SetDirty();
 }
 
 void PdfObjectStream::CopyFrom(const PdfObjectStream& rhs)
@@ -262,6 +267,7 @@ void PdfObjectStream::CopyFrom(const PdfObjectStream& rhs)
         lhsDict.AddKey(DecodeParmsKey, *decodeParms);
 
     m_Filters = rhs.m_Filters;
+    m_Parent->SetDirty();
 }
 
 void PdfObjectStream::SetData(const bufferview& buffer, bool raw)
-- 
2.43.0


From ba85467e6f9bb2604b1c6e569956bf7be385d05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:05 +0000
Subject: [PATCH 046/105] fix: clear the stream moved from, not the one moved
 to

---
 src/pdfmm/base/PdfObjectStream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfObjectStream.cpp b/src/pdfmm/base/PdfObjectStream.cpp
index 5113078..73db9b8 100644
--- a/src/pdfmm/base/PdfObjectStream.cpp
+++ b/src/pdfmm/base/PdfObjectStream.cpp
@@ -208,7 +208,7 @@ void PdfObjectStream::MoveFrom(PdfObjectStream& rhs)
     {
         auto stream = rhs.GetInputStream(true);
         this->SetData(stream, true);
-        m_Provider->Clear();
+        rhs.m_Provider->Clear();
     }
 
     // Fix the /Filter and /DecodeParms keys for
-- 
2.43.0


From af8fc74ee2f1fb0a2c8702b70025071f8d1804da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:05 +0000
Subject: [PATCH 047/105] fix: move the whole state of object stream handles

---
 src/pdfmm/base/PdfObjectStream.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/pdfmm/base/PdfObjectStream.cpp b/src/pdfmm/base/PdfObjectStream.cpp
index 73db9b8..af82486 100644
--- a/src/pdfmm/base/PdfObjectStream.cpp
+++ b/src/pdfmm/base/PdfObjectStream.cpp
@@ -396,6 +396,8 @@ PdfObjectInputStream::~PdfObjectInputStream()
 PdfObjectInputStream::PdfObjectInputStream(PdfObjectInputStream&& rhs) noexcept
 {
     utls::move(rhs.m_stream, m_stream);
+    m_input = std::move(rhs.m_input);
+    utls::move(rhs.m_MediaFilters, m_MediaFilters);
     utls::move(rhs.m_MediaDecodeParms, m_MediaDecodeParms);
 }
 
@@ -418,7 +420,10 @@ bool PdfObjectInputStream::readChar(char& ch)
 
 PdfObjectInputStream& PdfObjectInputStream::operator=(PdfObjectInputStream&& rhs) noexcept
 {
-    utls::move(rhs.m_stream, m_stream);
+    std::swap(m_stream, rhs.m_stream);
+    std::swap(m_input, rhs.m_input);
+    std::swap(m_MediaFilters, rhs.m_MediaFilters);
+    std::swap(m_MediaDecodeParms, rhs.m_MediaDecodeParms);
     return *this;
 }
 
@@ -466,7 +471,7 @@ PdfObjectOutputStream::~PdfObjectOutputStream()
 }
 
 PdfObjectOutputStream::PdfObjectOutputStream(PdfObjectOutputStream&& rhs) noexcept
-    : m_filters(std::move(rhs.m_filters))
+    : m_filters(std::move(rhs.m_filters)), m_output(std::move(rhs.m_output))
 {
     utls::move(rhs.m_stream, m_stream);
 }
@@ -530,9 +535,9 @@ void PdfObjectOutputStream::flush()
 
 PdfObjectOutputStream& PdfObjectOutputStream::operator=(PdfObjectOutputStream&& rhs) noexcept
 {
-    utls::move(rhs.m_stream, m_stream);
-    m_output = std::move(rhs.m_output);
-    m_filters = std::move(rhs.m_filters);
+    std::swap(m_stream, rhs.m_stream);
+    std::swap(m_output, rhs.m_output);
+    std::swap(m_filters, rhs.m_filters);
     return *this;
 }
 
-- 
2.43.0


From 137e84f74cbbc427bbce5c059bf665e32512a1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:05 +0000
Subject: [PATCH 048/105] fix: end the appending of a stream when its output is
 closed

---
 src/pdfmm/base/PdfImmediateWriter.cpp | 2 +-
 src/pdfmm/base/PdfObjectStream.cpp    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfImmediateWriter.cpp b/src/pdfmm/base/PdfImmediateWriter.cpp
index b368a0e..2e8ba27 100644
--- a/src/pdfmm/base/PdfImmediateWriter.cpp
+++ b/src/pdfmm/base/PdfImmediateWriter.cpp
@@ -160,7 +160,7 @@ void PdfImmediateWriter::BeginAppendStream(PdfObjectStream& stream)
 
 void PdfImmediateWriter::EndAppendStream(PdfObjectStream& stream)
 {
-    auto fileStream = dynamic_cast<const PdfStreamedObjectStream*>(&stream);
+    auto fileStream = dynamic_cast<const PdfStreamedObjectStream*>(&stream.GetProvider());
     if (fileStream != nullptr)
     {
         // A PdfFileStream has to be opened before
diff --git a/src/pdfmm/base/PdfObjectStream.cpp b/src/pdfmm/base/PdfObjectStream.cpp
index af82486..a01886b 100644
--- a/src/pdfmm/base/PdfObjectStream.cpp
+++ b/src/pdfmm/base/PdfObjectStream.cpp
@@ -466,7 +466,7 @@ PdfObjectOutputStream::~PdfObjectOutputStream()
 
         auto document = m_stream->GetParent().GetDocument();
         if (document != nullptr)
-            document->GetObjects().BeginAppendStream(*m_stream);
+            document->GetObjects().EndAppendStream(*m_stream);
     }
 }
 
-- 
2.43.0


From 74f2858f48b71512b6b1636ac4860fdd2a52727d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:24 +0000
Subject: [PATCH 049/105] fix: give the document to an object that replaces
 another one

---
 src/pdfmm/base/PdfIndirectObjectList.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pdfmm/base/PdfIndirectObjectList.cpp b/src/pdfmm/base/PdfIndirectObjectList.cpp
index 823f1e6..bdc910d 100644
--- a/src/pdfmm/base/PdfIndirectObjectList.cpp
+++ b/src/pdfmm/base/PdfIndirectObjectList.cpp
@@ -163,6 +163,7 @@ unique_ptr<PdfObject> PdfIndirectObjectList::ReplaceObject(const PdfReference& r
     auto node = m_Objects.extract(it);
     unique_ptr<PdfObject> ret(node.value());
     node.value() = obj;
+    obj->SetDocument(m_Document);
     obj->SetIndirectReference(ref);
     pushObject(node, obj);
     return ret;
-- 
2.43.0


From a75bfaeed777d2116f1df4b45284076e328d7eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:24 +0000
Subject: [PATCH 050/105] fix: replace only the object with the requested
 reference

---
 src/pdfmm/base/PdfIndirectObjectList.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfIndirectObjectList.cpp b/src/pdfmm/base/PdfIndirectObjectList.cpp
index bdc910d..18141c9 100644
--- a/src/pdfmm/base/PdfIndirectObjectList.cpp
+++ b/src/pdfmm/base/PdfIndirectObjectList.cpp
@@ -157,7 +157,7 @@ unique_ptr<PdfObject> PdfIndirectObjectList::ReplaceObject(const PdfReference& r
         PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidHandle, "Object must be non null");
 
     auto it = std::lower_bound(m_Objects.begin(), m_Objects.end(), ref, CompareReference);
-    if (it == m_Objects.end())
+    if (it == m_Objects.end() || (*it)->GetIndirectReference() != ref)
         PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidHandle, "Unable to find object with reference {}", ref.ToString());
 
     auto node = m_Objects.extract(it);
-- 
2.43.0


From 66717a683c0a7047f2449404b9542af1e05db27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:17 +0000
Subject: [PATCH 051/105] fix: mark an object that replaces another one as
 modified

---
 src/pdfmm/base/PdfIndirectObjectList.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pdfmm/base/PdfIndirectObjectList.cpp b/src/pdfmm/base/PdfIndirectObjectList.cpp
index 18141c9..e165bc4 100644
--- a/src/pdfmm/base/PdfIndirectObjectList.cpp
+++ b/src/pdfmm/base/PdfIndirectObjectList.cpp
@@ -163,6 +163,7 @@ unique_ptr<PdfObject> PdfIndirectObjectList::ReplaceObject(const PdfReference& r
     auto node = m_Objects.extract(it);
     unique_ptr<PdfObject> ret(node.value());
     node.value() = obj;
+    obj->setDirty();
     obj->SetDocument(m_Document);
     obj->SetIndirectReference(ref);
     pushObject(node, obj);
-- 
2.43.0


From 180b26a8009da92a59fe0509f8f8208cda969881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:17 +0000
Subject: [PATCH 052/105] fix: mark an object that gets a stream as modified

---
 src/pdfmm/base/PdfObject.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/base/PdfObject.cpp b/src/pdfmm/base/PdfObject.cpp
index 45483cb..fd445fb 100644
--- a/src/pdfmm/base/PdfObject.cpp
+++ b/src/pdfmm/base/PdfObject.cpp
@@ -144,7 +144,11 @@ PdfObject::PdfObject(PdfVariant&& var, const PdfReference& indirectReference, bo
 void PdfObject::ForceCreateStream()
 {
     DelayedLoadStream();
-    forceCreateStream();
+    if (m_Stream == nullptr)
+    {
+        forceCreateStream();
+        SetDirty();
+    }
 }
 
 void PdfObject::SetDocument(PdfDocument* document)
@@ -283,8 +287,8 @@ void PdfObject::Write(OutputStreamDevice& device, PdfWriteFlags writeMode,
 
 PdfObjectStream& PdfObject::GetOrCreateStream()
 {
-    DelayedLoadStream();
-    return getOrCreateStream();
+    ForceCreateStream();
+    return *m_Stream;
 }
 
 const PdfObjectStream& PdfObject::MustGetStream() const
-- 
2.43.0


From 6384175ffff2c304101f1b6dc7b5a3b69145bf3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:52 +0000
Subject: [PATCH 053/105] fix: equality of a nullable value and a nullable
 reference was inverted

---
 src/pdfmm/common/nullable.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/common/nullable.h b/src/pdfmm/common/nullable.h
index 1fbb79e..99b2fa1 100644
--- a/src/pdfmm/common/nullable.h
+++ b/src/pdfmm/common/nullable.h
@@ -241,12 +241,12 @@ namespace COMMON_NAMESPACE
     bool operator==(const nullable<std::decay_t<T2>>& lhs, const nullable<T2&>& rhs)
     {
         if (lhs.m_hasValue != rhs.m_hasValue)
-            return true;
+            return false;
 
         if (lhs.m_hasValue)
-            return lhs.m_value != *rhs.m_value;
+            return lhs.m_value == *rhs.m_value;
         else
-            return false;
+            return true;
     }
 
     template <typename T2>
-- 
2.43.0


From 0a23626fb996ec1c6eba77c8dcfecc7893325981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:52 +0000
Subject: [PATCH 054/105] fix: move assignment of a character map lost the map
 on self assignment and leaked the previous one

---
 src/pdfmm/base/PdfCharCodeMap.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pdfmm/base/PdfCharCodeMap.cpp b/src/pdfmm/base/PdfCharCodeMap.cpp
index cd65fd5..6ebfa37 100644
--- a/src/pdfmm/base/PdfCharCodeMap.cpp
+++ b/src/pdfmm/base/PdfCharCodeMap.cpp
@@ -28,6 +28,10 @@ PdfCharCodeMap::~PdfCharCodeMap()
 
 PdfCharCodeMap& PdfCharCodeMap::operator=(PdfCharCodeMap&& map) noexcept
 {
+    if (this == &map)
+        return *this;
+
+    deleteNode(m_codePointMapHead);
     move(map);
     return *this;
 }
-- 
2.43.0


From 797b6da398b502e026ba236feee738d1d6f3ba42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:34 +0000
Subject: [PATCH 055/105] fix: assigning a container to itself or from a value
 stored in it

---
 src/pdfmm/base/PdfArray.cpp      | 8 ++++++--
 src/pdfmm/base/PdfDictionary.cpp | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/pdfmm/base/PdfArray.cpp b/src/pdfmm/base/PdfArray.cpp
index da947e8..fe42850 100644
--- a/src/pdfmm/base/PdfArray.cpp
+++ b/src/pdfmm/base/PdfArray.cpp
@@ -65,7 +65,9 @@ PdfObject& PdfArray::MustFindAt(unsigned idx)
 
 PdfArray& PdfArray::operator=(const PdfArray& rhs)
 {
-    m_Objects = rhs.m_Objects;
+    // NOTE: rhs may be this array or be contained in it
+    PdfArrayList objects(rhs.m_Objects);
+    m_Objects.swap(objects);
     setChildrenParent();
     SetDirty();
     return *this;
@@ -73,7 +75,9 @@ PdfArray& PdfArray::operator=(const PdfArray& rhs)
 
 PdfArray& PdfArray::operator=(PdfArray&& rhs) noexcept
 {
-    m_Objects = std::move(rhs.m_Objects);
+    // NOTE: rhs may be this array or be contained in it
+    PdfArrayList objects(std::move(rhs.m_Objects));
+    m_Objects.swap(objects);
     setChildrenParent();
     SetDirty();
     return *this;
diff --git a/src/pdfmm/base/PdfDictionary.cpp b/src/pdfmm/base/PdfDictionary.cpp
index 39fd840..205533c 100644
--- a/src/pdfmm/base/PdfDictionary.cpp
+++ b/src/pdfmm/base/PdfDictionary.cpp
@@ -28,7 +28,9 @@ PdfDictionary::PdfDictionary(PdfDictionary&& rhs) noexcept
 
 PdfDictionary& PdfDictionary::operator=(const PdfDictionary& rhs)
 {
-    m_Map = rhs.m_Map;
+    // NOTE: rhs may be this dictionary or be contained in it
+    PdfDictionaryMap map(rhs.m_Map);
+    m_Map.swap(map);
     setChildrenParent();
     SetDirty();
     return *this;
@@ -36,7 +38,9 @@ PdfDictionary& PdfDictionary::operator=(const PdfDictionary& rhs)
 
 PdfDictionary& PdfDictionary::operator=(PdfDictionary&& rhs) noexcept
 {
-    m_Map = std::move(rhs.m_Map);
+    // NOTE: rhs may be this dictionary or be contained in it
+    PdfDictionaryMap map(std::move(rhs.m_Map));
+    m_Map.swap(map);
     setChildrenParent();
     SetDirty();
     return *this;
-- 
2.43.0


From 4d58c73b3fc70a8ed1afae98dd2b2794d7c0ff0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:34 +0000
Subject: [PATCH 056/105] fix: assigning an object without stream kept the
 previous stream

---
 src/pdfmm/base/PdfObject.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pdfmm/base/PdfObject.cpp b/src/pdfmm/base/PdfObject.cpp
index fd445fb..2e29b64 100644
--- a/src/pdfmm/base/PdfObject.cpp
+++ b/src/pdfmm/base/PdfObject.cpp
@@ -396,6 +396,10 @@ void PdfObject::copyStreamFrom(const PdfObject& obj)
         auto& stream = getOrCreateStream();
         stream = *obj.m_Stream;
     }
+    else
+    {
+        m_Stream = nullptr;
+    }
 }
 
 void PdfObject::moveStreamFrom(PdfObject& obj)
-- 
2.43.0


From ba2976826793816347be5fc7644e8d03a18ae11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:34 +0000
Subject: [PATCH 057/105] fix: moving a stream to itself dropped its filters

---
 src/pdfmm/base/PdfObjectStream.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfObjectStream.cpp b/src/pdfmm/base/PdfObjectStream.cpp
index a01886b..9f34f66 100644
--- a/src/pdfmm/base/PdfObjectStream.cpp
+++ b/src/pdfmm/base/PdfObjectStream.cpp
@@ -181,13 +181,17 @@ void PdfObjectStream::Unwrap()
 
 PdfObjectStream& PdfObjectStream::operator=(const PdfObjectStream& rhs)
 {
-    CopyFrom(rhs);
+    if (this != &rhs)
+        CopyFrom(rhs);
+
     return (*this);
 }
 
 PdfObjectStream& PdfObjectStream::operator=(PdfObjectStream&& rhs) noexcept
 {
-    MoveFrom(rhs);
+    if (this != &rhs)
+        MoveFrom(rhs);
+
     return (*this);
 }
 
-- 
2.43.0


From 24929eb0330d6a96491c3d5d522dedbddaf85cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:34 +0000
Subject: [PATCH 058/105] fix: the copy of an encrypted document was not
 encrypted

---
 src/pdfmm/base/PdfMemDocument.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/base/PdfMemDocument.cpp b/src/pdfmm/base/PdfMemDocument.cpp
index 703b04c..0597248 100644
--- a/src/pdfmm/base/PdfMemDocument.cpp
+++ b/src/pdfmm/base/PdfMemDocument.cpp
@@ -62,9 +62,8 @@ PdfMemDocument::PdfMemDocument(const PdfMemDocument& rhs) :
     m_HasXRefStream(rhs.m_HasXRefStream),
     m_PrevXRefOffset(rhs.m_PrevXRefOffset)
 {
-    auto encryptObj = GetTrailer().GetDictionary().FindKey("Encrypt");
-    if (encryptObj != nullptr)
-        m_Encrypt = PdfEncrypt::CreateFromObject(*encryptObj);
+    if (rhs.m_Encrypt != nullptr)
+        m_Encrypt = PdfEncrypt::CreateFromEncrypt(*rhs.m_Encrypt);
 }
 
 void PdfMemDocument::Clear()
-- 
2.43.0


From 222aebb5ad61118baa735b507a7972bda90ebe7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:18 +0000
Subject: [PATCH 059/105] fix: glyph indices of a CIDToGIDMap stream were
 sign-extended

---
 src/pdfmm/base/PdfCIDToGIDMap.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfCIDToGIDMap.cpp b/src/pdfmm/base/PdfCIDToGIDMap.cpp
index 61cf87b..bc3d944 100644
--- a/src/pdfmm/base/PdfCIDToGIDMap.cpp
+++ b/src/pdfmm/base/PdfCIDToGIDMap.cpp
@@ -25,7 +25,7 @@ PdfCIDToGIDMap PdfCIDToGIDMap::Create(const PdfObject& cidToGidMapObj, PdfGlyphA
     auto buffer = cidToGidMapObj.MustGetStream().GetCopy();
     for (unsigned i = 0, count = (unsigned)buffer.size() / 2; i < count; i++)
     {
-        unsigned gid = (unsigned)buffer[i * 2 + 0] << 8 | (unsigned)buffer[i * 2 + 1];
+        unsigned gid = (unsigned)(unsigned char)buffer[i * 2 + 0] << 8 | (unsigned)(unsigned char)buffer[i * 2 + 1];
         map[i] = gid;
     }
 
-- 
2.43.0


From b2b2916a1d0ffabd3e6624d6a2a16e788e516dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:18 +0000
Subject: [PATCH 060/105] fix: isdigit and isxdigit were called with negative
 values

---
 src/pdfmm/base/PdfColor.cpp     | 4 ++--
 src/pdfmm/base/PdfDate.cpp      | 2 +-
 src/pdfmm/base/PdfTokenizer.cpp | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pdfmm/base/PdfColor.cpp b/src/pdfmm/base/PdfColor.cpp
index b4563d6..8eec09b 100644
--- a/src/pdfmm/base/PdfColor.cpp
+++ b/src/pdfmm/base/PdfColor.cpp
@@ -684,7 +684,7 @@ PdfColor PdfColor::FromString(const string_view& name)
         return PdfColor();
 
     // first see if it's a single number - if so, that's a single gray value
-    if (isdigit(name[0]) || name[0] == '.')
+    if (isdigit((unsigned char)name[0]) || name[0] == '.')
     {
         double grayVal = 0.0;
         if (std::from_chars(name.data() + 1, name.data() + name.size(), grayVal, chars_format::fixed).ec != std::errc())
@@ -1105,7 +1105,7 @@ PdfColor PdfNamedColor::FromRGBString(const string_view& name)
 
     if (name.length() == 7
         && name[0] == '#'
-        && isxdigit(name[1]))
+        && isxdigit((unsigned char)name[1]))
     {
         unsigned nameConverted;
         if (std::from_chars(name.data() + 1, name.data() + name.size(), nameConverted, 16).ec != std::errc())
diff --git a/src/pdfmm/base/PdfDate.cpp b/src/pdfmm/base/PdfDate.cpp
index 1fd896f..baaef04 100644
--- a/src/pdfmm/base/PdfDate.cpp
+++ b/src/pdfmm/base/PdfDate.cpp
@@ -445,7 +445,7 @@ bool parseFixLenNumber(const char*& in, unsigned maxLength, int min, int max, in
     ret = 0;
     for (unsigned i = 0; i < maxLength; i++)
     {
-        if (in == nullptr || !isdigit(*in))
+        if (in == nullptr || !isdigit((unsigned char)*in))
             return i != 0;
 
         ret = ret * 10 + (*in - '0');
diff --git a/src/pdfmm/base/PdfTokenizer.cpp b/src/pdfmm/base/PdfTokenizer.cpp
index 0a7618b..c1817ae 100644
--- a/src/pdfmm/base/PdfTokenizer.cpp
+++ b/src/pdfmm/base/PdfTokenizer.cpp
@@ -270,7 +270,7 @@ PdfTokenizer::PdfLiteralDataType PdfTokenizer::DetermineDataType(InputStreamDevi
                 {
                     dataType = PdfLiteralDataType::Real;
                 }
-                else if (!(isdigit(*start) || *start == '-' || *start == '+'))
+                else if (!(isdigit((unsigned char)*start) || *start == '-' || *start == '+'))
                 {
                     dataType = PdfLiteralDataType::Unknown;
                     break;
@@ -780,7 +780,7 @@ void readHexString(InputStreamDevice& device, charbuff& buffer)
             break;
 
         // only a hex digits
-        if (isdigit(ch) ||
+        if (isdigit((unsigned char)ch) ||
             (ch >= 'A' && ch <= 'F') ||
             (ch >= 'a' && ch <= 'f'))
             buffer.push_back(ch);
-- 
2.43.0


From 2103fb03124f8c5ac86fe69abc465f517cab6d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:18 +0000
Subject: [PATCH 061/105] fix: the PNG average predictor computed with signed
 bytes

---
 src/pdfmm/private/PdfFiltersPrivate.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/private/PdfFiltersPrivate.cpp b/src/pdfmm/private/PdfFiltersPrivate.cpp
index bf89236..4ddb9e4 100644
--- a/src/pdfmm/private/PdfFiltersPrivate.cpp
+++ b/src/pdfmm/private/PdfFiltersPrivate.cpp
@@ -88,7 +88,7 @@ public:
         {
             if (m_NextByteIsPredictor)
             {
-                m_CurrPredictor = *buffer + 10;
+                m_CurrPredictor = (unsigned char)*buffer + 10;
                 m_NextByteIsPredictor = false;
             }
             else
@@ -129,8 +129,8 @@ public:
                     case 13: // png average
                     {
                         int prev = (m_CurrRowIndex - m_BytesPerPixel < 0
-                            ? 0 : m_Prev[m_CurrRowIndex - m_BytesPerPixel]);
-                        m_Prev[m_CurrRowIndex] = ((prev + m_Prev[m_CurrRowIndex]) >> 1) + *buffer;
+                            ? 0 : (unsigned char)m_Prev[m_CurrRowIndex - m_BytesPerPixel]);
+                        m_Prev[m_CurrRowIndex] = ((prev + (unsigned char)m_Prev[m_CurrRowIndex]) >> 1) + *buffer;
                         break;
                     }
                     case 14: // png paeth
-- 
2.43.0


From 1179a83376d6723e0f5955d0791a2038e96eea68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:18 +0000
Subject: [PATCH 062/105] fix: run length decoding took lengths as signed and
 copied one byte too few

---
 src/pdfmm/private/PdfFiltersPrivate.cpp | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/pdfmm/private/PdfFiltersPrivate.cpp b/src/pdfmm/private/PdfFiltersPrivate.cpp
index 4ddb9e4..60f3eda 100644
--- a/src/pdfmm/private/PdfFiltersPrivate.cpp
+++ b/src/pdfmm/private/PdfFiltersPrivate.cpp
@@ -595,6 +595,8 @@ void PdfFlateFilter::EndDecodeImpl()
 
 #pragma region PdfRLEFilter
 
+static constexpr int CODELEN_EOD = 256;
+
 PdfRLEFilter::PdfRLEFilter()
     : m_CodeLen(0)
 {
@@ -626,23 +628,31 @@ void PdfRLEFilter::DecodeBlockImpl(const char* buffer, size_t len)
     {
         if (m_CodeLen == 0)
         {
-            m_CodeLen = static_cast<int>(*buffer);
+            // A length below 128 is followed by length + 1 bytes to copy,
+            // one above 128 by a byte to repeat 257 - length times
+            int length = static_cast<unsigned char>(*buffer);
+            if (length == 128)
+                m_CodeLen = CODELEN_EOD;
+            else if (length < 128)
+                m_CodeLen = length + 1;
+            else
+                m_CodeLen = length;
         }
-        else if (m_CodeLen == 128)
+        else if (m_CodeLen == CODELEN_EOD)
         {
             break;
         }
-        else if (m_CodeLen <= 127)
+        else if (m_CodeLen <= 128)
         {
             GetStream()->Write(buffer, 1);
             m_CodeLen--;
         }
-        else if (m_CodeLen >= 129)
+        else
         {
-            m_CodeLen = 257 - m_CodeLen;
-
-            while (m_CodeLen--)
+            for (int i = 257 - m_CodeLen; i > 0; i--)
                 GetStream()->Write(buffer, 1);
+
+            m_CodeLen = 0;
         }
 
         buffer++;
-- 
2.43.0


From 0a4ea679f361195bd938444719bf03eaef54b6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:18 +0000
Subject: [PATCH 063/105] fix: the checksums of the tables of a font subset
 were wrong

---
 src/pdfmm/base/PdfFontTrueTypeSubset.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/base/PdfFontTrueTypeSubset.cpp b/src/pdfmm/base/PdfFontTrueTypeSubset.cpp
index d4eef0b..6b7692d 100644
--- a/src/pdfmm/base/PdfFontTrueTypeSubset.cpp
+++ b/src/pdfmm/base/PdfFontTrueTypeSubset.cpp
@@ -567,10 +567,10 @@ uint32_t GetTableCheksum(const char* buf, uint32_t size)
 {
     // As explained in the "Table Directory"
     // https://docs.microsoft.com/en-us/typography/opentype/spec/otff#tabledirectory
+    // Big-endian 32 bit words, the last one is padded with zeros
     uint32_t sum = 0;
-    uint32_t nLongs = (size + 3) / 4;
-    while (nLongs-- > 0)
-        sum += *buf++;
+    for (uint32_t i = 0; i < size; i++)
+        sum += (uint32_t)(unsigned char)buf[i] << (8 * (3 - i % 4));
 
     return sum;
 }
-- 
2.43.0


From 7f7b263728a13a4042d1586098757b0677bf4a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:18 +0000
Subject: [PATCH 064/105] fix: bytes above 127 could not be put back into a
 string view stream

---
 src/pdfmm/private/istringviewstream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/private/istringviewstream.h b/src/pdfmm/private/istringviewstream.h
index 5c1c168..adf61cf 100644
--- a/src/pdfmm/private/istringviewstream.h
+++ b/src/pdfmm/private/istringviewstream.h
@@ -109,7 +109,7 @@ namespace cmn
         int_type pbackfail(int_type ch) override
         {
             // Allows to reinsert only characters already existing
-            if (m_current == m_begin || (ch != traits_type::eof() && ch != m_current[-1]))
+            if (m_current == m_begin || (ch != traits_type::eof() && ch != traits_type::to_int_type(m_current[-1])))
                 return traits_type::eof();
 
             return traits_type::to_int_type(*--m_current);
-- 
2.43.0


From 6674446492284abcd41d19206a8d02da802ebfd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:18 +0000
Subject: [PATCH 065/105] fix: a color name was taken to be zero-terminated

---
 src/pdfmm/base/PdfColor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfColor.cpp b/src/pdfmm/base/PdfColor.cpp
index 8eec09b..5ab9c03 100644
--- a/src/pdfmm/base/PdfColor.cpp
+++ b/src/pdfmm/base/PdfColor.cpp
@@ -780,7 +780,7 @@ PdfColor PdfColor::FromString(const string_view& name)
         pair<const PdfNamedColor*, const PdfNamedColor*> iterators =
             std::equal_range(&(s_NamedColors[0]),
                 s_NamedColors + s_NamedColorsCount,
-                PdfNamedColor(name.data(), PdfColor()), NamedColorComparatorPredicate());
+                PdfNamedColor(name, PdfColor()), NamedColorComparatorPredicate());
 
         if (iterators.first != iterators.second)
             return iterators.first->GetColor();
-- 
2.43.0


From 98443cbb85f052cd99ac18e8c04afabf56f9034d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:18 +0000
Subject: [PATCH 066/105] fix: file names were taken to be zero-terminated

---
 src/pdfmm/base/PdfFontConfigWrapper.cpp      | 2 +-
 src/pdfmm/base/PdfImage.cpp                  | 2 +-
 src/pdfmm/private/PdfDeclarationsPrivate.cpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/base/PdfFontConfigWrapper.cpp b/src/pdfmm/base/PdfFontConfigWrapper.cpp
index 26545c5..dc9ac99 100644
--- a/src/pdfmm/base/PdfFontConfigWrapper.cpp
+++ b/src/pdfmm/base/PdfFontConfigWrapper.cpp
@@ -82,7 +82,7 @@ string PdfFontConfigWrapper::GetFontConfigFontPath(const string_view fontName,
 
 void PdfFontConfigWrapper::AddFontDirectory(const string_view& path)
 {
-    if (!FcConfigAppFontAddDir(m_FcConfig, (const FcChar8*)path.data()))
+    if (!FcConfigAppFontAddDir(m_FcConfig, (const FcChar8*)((string)path).c_str()))
         PDFMM_RAISE_ERROR_INFO(PdfErrorCode::FileNotFound, "Unable to add font directory");
 }
 
diff --git a/src/pdfmm/base/PdfImage.cpp b/src/pdfmm/base/PdfImage.cpp
index 1832db6..01932ef 100644
--- a/src/pdfmm/base/PdfImage.cpp
+++ b/src/pdfmm/base/PdfImage.cpp
@@ -862,7 +862,7 @@ void PdfImage::loadFromTiff(const string_view& filename)
     auto filename16 = utf8::utf8to16((string)filename);
     TIFF* hInfile = TIFFOpenW((wchar_t*)filename16.c_str(), "rb");
 #else
-    TIFF* hInfile = TIFFOpen(filename.data(), "rb");
+    TIFF* hInfile = TIFFOpen(((string)filename).c_str(), "rb");
 #endif
 
     if (hInfile == nullptr)
diff --git a/src/pdfmm/private/PdfDeclarationsPrivate.cpp b/src/pdfmm/private/PdfDeclarationsPrivate.cpp
index ddc7e21..5d68966 100644
--- a/src/pdfmm/private/PdfDeclarationsPrivate.cpp
+++ b/src/pdfmm/private/PdfDeclarationsPrivate.cpp
@@ -860,7 +860,7 @@ FILE* utls::fopen(const string_view& filename, const string_view& mode)
     auto mode16 = utf8::utf8to16((string)mode);
     return _wfopen((wchar_t*)filename16.c_str(), (wchar_t*)mode16.c_str());
 #else
-    return std::fopen(filename.data(), mode.data());
+    return std::fopen(((string)filename).c_str(), ((string)mode).c_str());
 #endif
 }
 
-- 
2.43.0


From ce86853104fe1fdc4e56b6d501190a745b89bfa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:18 +0000
Subject: [PATCH 067/105] fix: dates were taken to be zero-terminated

---
 src/pdfmm/base/PdfDate.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/pdfmm/base/PdfDate.cpp b/src/pdfmm/base/PdfDate.cpp
index baaef04..181cd32 100644
--- a/src/pdfmm/base/PdfDate.cpp
+++ b/src/pdfmm/base/PdfDate.cpp
@@ -211,10 +211,13 @@ bool tryParse(const string_view& dateStr, chrono::seconds& secondsFromEpoch, nul
     int zoneHour = 0;
     int zoneMin = 0;
 
-    const char* cursor = dateStr.data();
-    if (cursor == nullptr)
+    if (dateStr.data() == nullptr || dateStr.find('\0') != string_view::npos)
         return false;
 
+    // NOTE: The view is not necessarily zero-terminated
+    string date(dateStr);
+    const char* cursor = date.c_str();
+
     if (*cursor == 'D')
     {
         cursor++;
@@ -303,10 +306,13 @@ bool tryParseW3C(const string_view& dateStr, chrono::seconds& secondsFromEpoch,
     int zoneHour = 0;
     int zoneMin = 0;
 
-    const char* cursor = dateStr.data();
-    if (cursor == nullptr || *cursor == '\0')
+    if (dateStr.empty() || dateStr.find('\0') != string_view::npos)
         return false;
 
+    // NOTE: The view is not necessarily zero-terminated
+    string date(dateStr);
+    const char* cursor = date.c_str();
+
     if (!parseFixLenNumber(cursor, 4, 0, 9999, y))
         return false;
 
-- 
2.43.0


From 9bce59ef4cf6ab1a377b3659f7dbd0630c937e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:07 +0000
Subject: [PATCH 068/105] fix: the color space CalRGB has a name

---
 src/pdfmm/private/PdfDeclarationsPrivate.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pdfmm/private/PdfDeclarationsPrivate.cpp b/src/pdfmm/private/PdfDeclarationsPrivate.cpp
index 5d68966..044df0e 100644
--- a/src/pdfmm/private/PdfDeclarationsPrivate.cpp
+++ b/src/pdfmm/private/PdfDeclarationsPrivate.cpp
@@ -304,6 +304,8 @@ PdfColorSpace mm::NameToColorSpaceRaw(const string_view& name)
         return PdfColorSpace::DeviceCMYK;
     else if (name == "CalGray")
         return PdfColorSpace::CalGray;
+    else if (name == "CalRGB")
+        return PdfColorSpace::CalRGB;
     else if (name == "Lab")
         return PdfColorSpace::Lab;
     else if (name == "ICCBased")
@@ -332,6 +334,8 @@ string_view mm::ColorSpaceToNameRaw(PdfColorSpace colorSpace)
             return "DeviceCMYK"sv;
         case PdfColorSpace::CalGray:
             return "CalGray"sv;
+        case PdfColorSpace::CalRGB:
+            return "CalRGB"sv;
         case PdfColorSpace::Lab:
             return "Lab"sv;
         case PdfColorSpace::ICCBased:
-- 
2.43.0


From a873cfdd6d255bd317bf221f5396645afd36cb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:07 +0000
Subject: [PATCH 069/105] fix: RichMediaExecute actions can be created and read

---
 src/pdfmm/base/PdfAction.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pdfmm/base/PdfAction.cpp b/src/pdfmm/base/PdfAction.cpp
index e429d95..1697582 100644
--- a/src/pdfmm/base/PdfAction.cpp
+++ b/src/pdfmm/base/PdfAction.cpp
@@ -31,6 +31,7 @@ static const char* s_names[] = {
     "Rendition",
     "Trans",
     "GoTo3DView",
+    "RichMediaExecute",
 };
 
 PdfAction::PdfAction(PdfDocument& doc, PdfActionType action)
-- 
2.43.0


From fb304446c5d01851ba6c9214f406d37aa1d10dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:07 +0000
Subject: [PATCH 070/105] fix: name of the error code InvalidStreamLength

---
 src/pdfmm/base/PdfError.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfError.cpp b/src/pdfmm/base/PdfError.cpp
index ea3ea14..8873e0d 100644
--- a/src/pdfmm/base/PdfError.cpp
+++ b/src/pdfmm/base/PdfError.cpp
@@ -144,7 +144,7 @@ string_view PdfError::ErrorName(PdfErrorCode code)
         case PdfErrorCode::InvalidStream:
             return "PdfErrorCode::InvalidStream"sv;
         case PdfErrorCode::InvalidStreamLength:
-            return "PdfErrorCode::InvalidStream"sv;
+            return "PdfErrorCode::InvalidStreamLength"sv;
         case PdfErrorCode::InvalidKey:
             return "PdfErrorCode::InvalidKey"sv;
         case PdfErrorCode::InvalidName:
-- 
2.43.0


From 4a1ba2f4dd0436b70e96c94a06194b983bd9ba5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:07 +0000
Subject: [PATCH 071/105] fix: a destination that needs a value is not written
 with an empty fit name

---
 src/pdfmm/base/PdfDestination.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pdfmm/base/PdfDestination.cpp b/src/pdfmm/base/PdfDestination.cpp
index 77862f5..8b56c7f 100644
--- a/src/pdfmm/base/PdfDestination.cpp
+++ b/src/pdfmm/base/PdfDestination.cpp
@@ -34,6 +34,8 @@ PdfDestination::PdfDestination(const PdfPage& page, PdfDestinationFit fit)
         type = PdfName("Fit");
     else if (fit == PdfDestinationFit::FitB)
         type = PdfName("FitB");
+    else
+        PDFMM_RAISE_ERROR(PdfErrorCode::InvalidKey);
 
     auto& arr = GetArray();
     arr.Add(page.GetObject().GetIndirectReference());
-- 
2.43.0


From 0aa49f117dda6f5a6dcd883cc074707a6c439a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:26 +0000
Subject: [PATCH 072/105] fix: name of the error code XmpMetadata

---
 src/pdfmm/base/PdfError.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pdfmm/base/PdfError.cpp b/src/pdfmm/base/PdfError.cpp
index 8873e0d..e5e78bc 100644
--- a/src/pdfmm/base/PdfError.cpp
+++ b/src/pdfmm/base/PdfError.cpp
@@ -193,6 +193,8 @@ string_view PdfError::ErrorName(PdfErrorCode code)
             return "PdfErrorCode::NotLoadedForUpdate"sv;
         case PdfErrorCode::CannotEncryptedForUpdate:
             return "PdfErrorCode::CannotEncryptedForUpdate"sv;
+        case PdfErrorCode::XmpMetadata:
+            return "PdfErrorCode::XmpMetadata"sv;
         case PdfErrorCode::Unknown:
             return "PdfErrorCode::Unknown"sv;
         default:
-- 
2.43.0


From 3db455e98cc42de4caf6a2c4988f540bb3599f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:49 +0000
Subject: [PATCH 073/105] fix: character 0x60 of the standard encoding is
 quoteleft

---
 src/pdfmm/base/PdfPredefinedEncoding.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfPredefinedEncoding.cpp b/src/pdfmm/base/PdfPredefinedEncoding.cpp
index 635662e..56bf7aa 100644
--- a/src/pdfmm/base/PdfPredefinedEncoding.cpp
+++ b/src/pdfmm/base/PdfPredefinedEncoding.cpp
@@ -724,7 +724,7 @@ const char32_t PdfStandardEncoding::s_cEncoding[256] = {
         0x005E,  // 5E   # CIRCUMFLEX ACCENT   # asciicircum
         0x005F,  // 5F   # LOW LINE   # underscore
     #if 1
-        0x0060,  // 60   # GRAVE ACCENT
+        0x2018,  // 60   # LEFT SINGLE QUOTATION MARK   # quoteleft
     #else
         // OC 13.08.2010: See http://unicode.org/Public/MAPPINGS/VENDORS/ADOBE/stdenc.txt
         // The following unicode char should be encoded here.
-- 
2.43.0


From c041177cbc7367d91b1de50e61dba513d0283ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:49 +0000
Subject: [PATCH 074/105] fix: the last digit of an odd hexadecimal stream is
 the high half of its byte

---
 src/pdfmm/private/PdfFiltersPrivate.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/private/PdfFiltersPrivate.cpp b/src/pdfmm/private/PdfFiltersPrivate.cpp
index 60f3eda..3c2ccbe 100644
--- a/src/pdfmm/private/PdfFiltersPrivate.cpp
+++ b/src/pdfmm/private/PdfFiltersPrivate.cpp
@@ -278,8 +278,8 @@ void PdfHexFilter::EndDecodeImpl()
     if (!m_Low)
     {
         // an odd number of bytes was read,
-        // so the last byte is 0
-        GetStream()->Write(m_DecodedByte);
+        // so the last digit is assumed to be 0
+        GetStream()->Write((char)(m_DecodedByte << 4));
     }
 }
 
-- 
2.43.0


From 59d589aaf1c23a7af3258936c23a5c065ed76b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:49 +0000
Subject: [PATCH 075/105] fix: the last digit of an odd hexadecimal string is
 the high half of its byte

---
 src/pdfmm/base/PdfString.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfString.cpp b/src/pdfmm/base/PdfString.cpp
index 0e4cd5c..f38af18 100644
--- a/src/pdfmm/base/PdfString.cpp
+++ b/src/pdfmm/base/PdfString.cpp
@@ -96,8 +96,8 @@ PdfString PdfString::FromHexData(const string_view& hexView, const PdfStatefulEn
     if (!low)
     {
         // an odd number of bytes was read,
-        // so the last byte is 0
-        buffer.push_back(decodedChar);
+        // so the last digit is assumed to be 0
+        buffer.push_back((char)(decodedChar << 4));
     }
 
     if (encrypt.HasEncrypt())
-- 
2.43.0


From 4aefec722405d06a254d5334c0af7038c3fb6ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:57 +0000
Subject: [PATCH 076/105] fix: imported fonts are told apart by their standard
 14 type, as their hash does

---
 src/pdfmm/base/PdfFontManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfFontManager.cpp b/src/pdfmm/base/PdfFontManager.cpp
index 57c9a45..43b1b0f 100644
--- a/src/pdfmm/base/PdfFontManager.cpp
+++ b/src/pdfmm/base/PdfFontManager.cpp
@@ -481,7 +481,7 @@ size_t PdfFontManager::HashElement::operator()(const Descriptor& elem) const
 
 bool PdfFontManager::EqualElement::operator()(const Descriptor& lhs, const Descriptor& rhs) const
 {
-    return lhs.EncodingId == rhs.EncodingId && lhs.Style == rhs.Style && lhs.FontName == rhs.FontName;
+    return lhs.EncodingId == rhs.EncodingId && lhs.StdType == rhs.StdType && lhs.Style == rhs.Style && lhs.FontName == rhs.FontName;
 }
 
 unique_ptr<charbuff> getFontData(const string_view& filename, unsigned short faceIndex)
-- 
2.43.0


From e3390de2395d5b8fc7a5f1223d7e42cdd93dc80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:26 +0000
Subject: [PATCH 077/105] fix: keep the recursion depth balanced when the limit
 is exceeded

---
 src/pdfmm/private/PdfDeclarationsPrivate.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/private/PdfDeclarationsPrivate.cpp b/src/pdfmm/private/PdfDeclarationsPrivate.cpp
index 044df0e..a2a19db 100644
--- a/src/pdfmm/private/PdfDeclarationsPrivate.cpp
+++ b/src/pdfmm/private/PdfDeclarationsPrivate.cpp
@@ -1223,8 +1223,7 @@ void removeTrailingZeroes(string& str)
 
 void utls::RecursionGuard::Enter()
 {
-    s_recursionDepth++;
-    if (s_recursionDepth > s_MaxRecursionDepth)
+    if (s_recursionDepth >= s_MaxRecursionDepth)
     {
         // avoid stack overflow on documents that have circular cross references, loops
         // or very deeply nested structures, can happen with
@@ -1234,6 +1233,10 @@ void utls::RecursionGuard::Enter()
         // mutually recursive loops involving several objects are possible
         PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidXRef, "Stack overflow");
     }
+
+    // NOTE: Increment only when entering succeeds: if the constructor
+    // of the guard throws its destructor won't be called
+    s_recursionDepth++;
 }
 
 void utls::RecursionGuard::Exit()
-- 
2.43.0


From aebea9fe0c38ddaf0e07877957d835774a11e931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:26 +0000
Subject: [PATCH 078/105] fix: limit the nesting of dictionaries while parsing

---
 src/pdfmm/base/PdfTokenizer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pdfmm/base/PdfTokenizer.cpp b/src/pdfmm/base/PdfTokenizer.cpp
index c1817ae..eacd360 100644
--- a/src/pdfmm/base/PdfTokenizer.cpp
+++ b/src/pdfmm/base/PdfTokenizer.cpp
@@ -404,6 +404,7 @@ bool PdfTokenizer::tryReadDataType(InputStreamDevice& device, PdfLiteralDataType
 
 void PdfTokenizer::ReadDictionary(InputStreamDevice& device, PdfVariant& variant, const PdfStatefulEncrypt& encrypt)
 {
+    utls::RecursionGuard guard;
     PdfVariant val;
     PdfName key;
     PdfTokenType tokenType;
-- 
2.43.0


From 3102ac0de9ead5be70cfd28af7b3fc4c26a62f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:26 +0000
Subject: [PATCH 079/105] fix: limit the recursion over field parents

---
 src/pdfmm/base/PdfField.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pdfmm/base/PdfField.cpp b/src/pdfmm/base/PdfField.cpp
index 786ed9e..6863197 100644
--- a/src/pdfmm/base/PdfField.cpp
+++ b/src/pdfmm/base/PdfField.cpp
@@ -841,6 +841,7 @@ void PdfField::linkFieldObjectToParent(const shared_ptr<PdfField>& field, PdfFie
 
 void getFullName(const PdfObject& obj, bool escapePartialNames, string& fullname)
 {
+    utls::RecursionGuard guard;
     auto& dict = obj.GetDictionary();
     auto parent = dict.FindKey("Parent");
     if (parent != nullptr)
-- 
2.43.0


From 64bf08f3928ad64229668bf9e0522b4d577ccd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:26 +0000
Subject: [PATCH 080/105] fix: limit the recursion when looking up inherited
 keys

---
 src/pdfmm/base/PdfDictionary.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pdfmm/base/PdfDictionary.cpp b/src/pdfmm/base/PdfDictionary.cpp
index 205533c..c9178b3 100644
--- a/src/pdfmm/base/PdfDictionary.cpp
+++ b/src/pdfmm/base/PdfDictionary.cpp
@@ -153,6 +153,7 @@ PdfObject* PdfDictionary::findKey(const string_view& key) const
 
 PdfObject* PdfDictionary::findKeyParent(const string_view& key) const
 {
+    utls::RecursionGuard guard;
     PdfObject* obj = findKey(key);
     if (obj == nullptr)
     {
-- 
2.43.0


From 5b3f278e26906db3752eb7b034471796ec95b594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:26 +0000
Subject: [PATCH 081/105] fix: limit the recursion over the kids of name trees

---
 src/pdfmm/base/PdfNameTree.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pdfmm/base/PdfNameTree.cpp b/src/pdfmm/base/PdfNameTree.cpp
index ae19b9e..f203b13 100644
--- a/src/pdfmm/base/PdfNameTree.cpp
+++ b/src/pdfmm/base/PdfNameTree.cpp
@@ -46,6 +46,7 @@ private:
 
 bool PdfNameTreeNode::AddValue(const PdfString& key, const PdfObject& value)
 {
+    utls::RecursionGuard guard;
     if (m_HasKids)
     {
         const PdfArray& kids = this->GetObject()->GetDictionary().MustFindKey("Kids").GetArray();
@@ -341,6 +342,7 @@ PdfObject* PdfNameTree::GetValue(const PdfName& tree, const PdfString& key) cons
 
 PdfObject* PdfNameTree::GetKeyValue(PdfObject& obj, const PdfString& key) const
 {
+    utls::RecursionGuard guard;
     if (PdfNameTree::CheckLimits(obj, key) != PdfNameLimits::Inside)
         return nullptr;
 
-- 
2.43.0


From c913be989770f7ba5bd58f4c7ce95d798c8abf26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:26 +0000
Subject: [PATCH 082/105] fix: limit the recursion when copying streams

---
 src/pdfmm/base/PdfObjectStream.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pdfmm/base/PdfObjectStream.cpp b/src/pdfmm/base/PdfObjectStream.cpp
index 9f34f66..c8d8c9c 100644
--- a/src/pdfmm/base/PdfObjectStream.cpp
+++ b/src/pdfmm/base/PdfObjectStream.cpp
@@ -248,6 +248,8 @@ void PdfObjectStream::MoveFrom(PdfObjectStream& rhs)
 
 void PdfObjectStream::CopyFrom(const PdfObjectStream& rhs)
 {
+    // NOTE: /Filter or /DecodeParms may refer to streams themselves
+    utls::RecursionGuard guard;
     ensureClosed();
     if (!m_Provider->TryCopyFrom(*rhs.m_Provider))
     {
-- 
2.43.0


From 6ceade7ed40db8df0615b2b4835aaa5f43e687bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:27 +0000
Subject: [PATCH 083/105] fix: detect loops of references in page contents

---
 src/pdfmm/base/PdfDocument.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pdfmm/base/PdfDocument.cpp b/src/pdfmm/base/PdfDocument.cpp
index 6a22fe3..ec7f6c2 100644
--- a/src/pdfmm/base/PdfDocument.cpp
+++ b/src/pdfmm/base/PdfDocument.cpp
@@ -397,10 +397,14 @@ PdfRect PdfDocument::FillXObjectFromPage(PdfXObjectForm& xobj, const PdfPage& pa
                     // TODO: not very efficient !!
                     auto obj = GetObjects().GetObject(child.GetReference());
 
+                    unsigned depth = 0;
                     while (obj != nullptr)
                     {
                         if (obj->IsReference())    // Recursively look for the stream
                         {
+                            if (++depth > utls::RecursionGuard::GetMaxRecursionDepth())
+                                PDFMM_RAISE_ERROR_INFO(PdfErrorCode::BrokenFile, "Loop in references to page contents");
+
                             obj = GetObjects().GetObject(obj->GetReference());
                         }
                         else if (obj->HasStream())
-- 
2.43.0


From 669bcd8c18de472217ce773f86a678354230912d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:08 +0000
Subject: [PATCH 084/105] fix: report spellchecking and scrolling of fields
 with the sense they are set

---
 src/pdfmm/base/PdfChoiceField.cpp | 2 +-
 src/pdfmm/base/PdfTextBox.cpp     | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/base/PdfChoiceField.cpp b/src/pdfmm/base/PdfChoiceField.cpp
index 12188c0..ee20d12 100644
--- a/src/pdfmm/base/PdfChoiceField.cpp
+++ b/src/pdfmm/base/PdfChoiceField.cpp
@@ -184,7 +184,7 @@ void PdChoiceField::SetSpellcheckingEnabled(bool spellCheck)
 
 bool PdChoiceField::IsSpellcheckingEnabled() const
 {
-    return this->GetFieldFlag(static_cast<int>(ePdfListField_NoSpellcheck), true);
+    return !this->GetFieldFlag(static_cast<int>(ePdfListField_NoSpellcheck), false);
 }
 
 void PdChoiceField::SetSorted(bool sorted)
diff --git a/src/pdfmm/base/PdfTextBox.cpp b/src/pdfmm/base/PdfTextBox.cpp
index 6f3ceb2..f9a9699 100644
--- a/src/pdfmm/base/PdfTextBox.cpp
+++ b/src/pdfmm/base/PdfTextBox.cpp
@@ -119,7 +119,7 @@ void PdfTextBox::SetSpellcheckingEnabled(bool spellcheck)
 
 bool PdfTextBox::IsSpellcheckingEnabled() const
 {
-    return this->GetFieldFlag(static_cast<int>(PdfTextBox_NoSpellcheck), true);
+    return !this->GetFieldFlag(static_cast<int>(PdfTextBox_NoSpellcheck), false);
 }
 
 void PdfTextBox::SetScrollBarsEnabled(bool scroll)
@@ -129,7 +129,7 @@ void PdfTextBox::SetScrollBarsEnabled(bool scroll)
 
 bool PdfTextBox::IsScrollBarsEnabled() const
 {
-    return this->GetFieldFlag(static_cast<int>(PdfTextBox_NoScroll), true);
+    return !this->GetFieldFlag(static_cast<int>(PdfTextBox_NoScroll), false);
 }
 
 void PdfTextBox::SetCombs(bool combs)
-- 
2.43.0


From f54e4305901fd3b1959e6682841b0225fe5b4e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:08 +0000
Subject: [PATCH 085/105] fix: return /MaxLen of text boxes when it could be
 read

---
 src/pdfmm/base/PdfTextBox.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfTextBox.cpp b/src/pdfmm/base/PdfTextBox.cpp
index f9a9699..7ac10ba 100644
--- a/src/pdfmm/base/PdfTextBox.cpp
+++ b/src/pdfmm/base/PdfTextBox.cpp
@@ -76,7 +76,7 @@ int64_t PdfTextBox::GetMaxLen() const
 {
     int64_t ret;
     auto found = GetDictionary().FindKeyParent("MaxLen");
-    if (found == nullptr || found->TryGetNumber(ret))
+    if (found == nullptr || !found->TryGetNumber(ret))
         return -1;
 
     return ret;
-- 
2.43.0


From f99c8a4b627823400a77ebb8770b8c49daa1382f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:08 +0000
Subject: [PATCH 086/105] fix: store the focus leave action under the specified
 key

---
 src/pdfmm/base/PdfField.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfField.cpp b/src/pdfmm/base/PdfField.cpp
index 6863197..221ceb4 100644
--- a/src/pdfmm/base/PdfField.cpp
+++ b/src/pdfmm/base/PdfField.cpp
@@ -769,7 +769,7 @@ void PdfField::SetFocusEnterAction(const PdfAction& action)
 
 void PdfField::SetFocusLeaveAction(const PdfAction& action)
 {
-    this->addAlternativeAction("BI", action);
+    this->addAlternativeAction("Bl", action);
 }
 
 void PdfField::SetPageOpenAction(const PdfAction& action)
-- 
2.43.0


From c1b1d7a62d70c0f748cf97de7bcd11a6ef3e8c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:13 +0000
Subject: [PATCH 087/105] fix: do not leave a stream locked when opening it
 fails

---
 src/pdfmm/base/PdfObjectStream.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/base/PdfObjectStream.cpp b/src/pdfmm/base/PdfObjectStream.cpp
index c8d8c9c..2f74d98 100644
--- a/src/pdfmm/base/PdfObjectStream.cpp
+++ b/src/pdfmm/base/PdfObjectStream.cpp
@@ -410,8 +410,9 @@ PdfObjectInputStream::PdfObjectInputStream(PdfObjectInputStream&& rhs) noexcept
 PdfObjectInputStream::PdfObjectInputStream(PdfObjectStream& stream, bool raw)
     : m_stream(&stream)
 {
-    m_stream->m_locked = true;
+    // Lock the stream last: the destructor is not run if the constructor fails
     m_input = stream.getInputStream(raw, m_MediaFilters, m_MediaDecodeParms);
+    m_stream->m_locked = true;
 }
 
 size_t PdfObjectInputStream::readBuffer(char* buffer, size_t size, bool& eof)
@@ -523,10 +524,11 @@ PdfObjectOutputStream::PdfObjectOutputStream(PdfObjectStream& stream,
         m_output = stream.m_Provider->GetOutputStream(stream.GetParent());
     }
 
-    m_stream->m_locked = true;
-
     if (buffer.size() != 0)
         WriteBuffer(*m_output, buffer.data(), buffer.size());
+
+    // Lock the stream last: the destructor is not run if the constructor fails
+    m_stream->m_locked = true;
 }
 
 void PdfObjectOutputStream::writeBuffer(const char* buffer, size_t size)
-- 
2.43.0


From 208495b9ee75cfdfd8c50871570adb093db02e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:13 +0000
Subject: [PATCH 088/105] fix: reject copying and saving of streams that are
 still open

---
 src/pdfmm/base/PdfObjectStream.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pdfmm/base/PdfObjectStream.cpp b/src/pdfmm/base/PdfObjectStream.cpp
index 2f74d98..4138cf2 100644
--- a/src/pdfmm/base/PdfObjectStream.cpp
+++ b/src/pdfmm/base/PdfObjectStream.cpp
@@ -74,6 +74,7 @@ void PdfObjectStream::CopyToSafe(charbuff& buffer) const
 
 void PdfObjectStream::CopyTo(OutputStream& stream, bool raw) const
 {
+    ensureClosed();
     PdfFilterList mediaFilters;
     vector<const PdfDictionary*> decodeParms;
     auto inputStream = const_cast<PdfObjectStream&>(*this).getInputStream(raw, mediaFilters, decodeParms);
@@ -86,6 +87,7 @@ void PdfObjectStream::CopyTo(OutputStream& stream, bool raw) const
 
 void PdfObjectStream::CopyToSafe(OutputStream& stream) const
 {
+    ensureClosed();
     PdfFilterList mediaFilters;
     vector<const PdfDictionary*> decodeParms;
     auto inputStream = const_cast<PdfObjectStream&>(*this).getInputStream(false, mediaFilters, decodeParms);
@@ -197,6 +199,7 @@ PdfObjectStream& PdfObjectStream::operator=(PdfObjectStream&& rhs) noexcept
 
 void PdfObjectStream::Write(OutputStream& stream, const PdfStatefulEncrypt& encrypt)
 {
+    ensureClosed();
     m_Provider->Write(stream, encrypt);
 }
 
@@ -208,6 +211,7 @@ size_t PdfObjectStream::GetLength() const
 void PdfObjectStream::MoveFrom(PdfObjectStream& rhs)
 {
     ensureClosed();
+    rhs.ensureClosed();
     if (!m_Provider->TryMoveFrom(std::move(*rhs.m_Provider)))
     {
         auto stream = rhs.GetInputStream(true);
@@ -251,6 +255,7 @@ void PdfObjectStream::CopyFrom(const PdfObjectStream& rhs)
     // NOTE: /Filter or /DecodeParms may refer to streams themselves
     utls::RecursionGuard guard;
     ensureClosed();
+    rhs.ensureClosed();
     if (!m_Provider->TryCopyFrom(*rhs.m_Provider))
     {
         auto stream = rhs.GetInputStream(true);
-- 
2.43.0


From a17bc6654eb39dbfe9434084eda1956c42fa3473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:13 +0000
Subject: [PATCH 089/105] fix: finish the output of a stream before unlocking
 it

---
 src/pdfmm/base/PdfObjectStream.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pdfmm/base/PdfObjectStream.cpp b/src/pdfmm/base/PdfObjectStream.cpp
index 4138cf2..0a94495 100644
--- a/src/pdfmm/base/PdfObjectStream.cpp
+++ b/src/pdfmm/base/PdfObjectStream.cpp
@@ -446,6 +446,9 @@ PdfObjectOutputStream::~PdfObjectOutputStream()
 {
     if (m_stream != nullptr)
     {
+        // Finish the output before the stream is unlocked
+        m_output = nullptr;
+
         // Set filters on the stream and on the parent object
         // NOTE: if filters are not defined assume we will
         // preserve them on the parent
-- 
2.43.0


From 69960cf49fb3d4f7ff5f31091a5bad135e8cc52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:56 +0000
Subject: [PATCH 090/105] fix: end filter operations also when flushing their
 output fails

---
 src/pdfmm/base/PdfFilter.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/pdfmm/base/PdfFilter.cpp b/src/pdfmm/base/PdfFilter.cpp
index 55814fd..54ad8e6 100644
--- a/src/pdfmm/base/PdfFilter.cpp
+++ b/src/pdfmm/base/PdfFilter.cpp
@@ -406,8 +406,10 @@ void PdfFilter::EndEncode()
         throw;
     }
 
-    m_OutputStream->Flush();
+    // The operation is over even if flushing the output fails
+    OutputStream* output = m_OutputStream;
     m_OutputStream = nullptr;
+    output->Flush();
 }
 
 void PdfFilter::BeginDecode(OutputStream& output, const PdfDictionary* decodeParms)
@@ -477,8 +479,9 @@ void PdfFilter::EndDecode()
 
 void PdfFilter::FailEncodeDecode()
 {
-    if (m_OutputStream != nullptr)
-        m_OutputStream->Flush();
-
+    // The operation is over even if flushing the output fails
+    OutputStream* output = m_OutputStream;
     m_OutputStream = nullptr;
+    if (output != nullptr)
+        output->Flush();
 }
-- 
2.43.0


From 80272e4283feebd2b3336c84b4201290fc43a38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:06 +0000
Subject: [PATCH 091/105] fix: forget the predictor of a failed decode
 operation

---
 src/pdfmm/private/PdfFiltersPrivate.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pdfmm/private/PdfFiltersPrivate.cpp b/src/pdfmm/private/PdfFiltersPrivate.cpp
index 3c2ccbe..3dfea06 100644
--- a/src/pdfmm/private/PdfFiltersPrivate.cpp
+++ b/src/pdfmm/private/PdfFiltersPrivate.cpp
@@ -531,8 +531,8 @@ void PdfFlateFilter::BeginDecodeImpl(const PdfDictionary* decodeParms)
     m_stream.zfree = Z_NULL;
     m_stream.opaque = Z_NULL;
 
-    if (decodeParms != nullptr)
-        m_Predictor.reset(new PdfPredictorDecoder(*decodeParms));
+    // NOTE: A failed operation may have left a predictor
+    m_Predictor.reset(decodeParms == nullptr ? nullptr : new PdfPredictorDecoder(*decodeParms));
 
     if (inflateInit(&m_stream) != Z_OK)
         PDFMM_RAISE_ERROR(PdfErrorCode::Flate);
@@ -698,8 +698,8 @@ void PdfLZWFilter::BeginDecodeImpl(const PdfDictionary* decodeParms)
 
     m_First = true;
 
-    if (decodeParms != nullptr)
-        m_Predictor.reset(new PdfPredictorDecoder(*decodeParms));
+    // NOTE: A failed operation may have left a predictor
+    m_Predictor.reset(decodeParms == nullptr ? nullptr : new PdfPredictorDecoder(*decodeParms));
 
     InitTable();
 }
-- 
2.43.0


From 352067b89dc5e3d3f59bf4157077bc2c6684b926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:06 +0000
Subject: [PATCH 092/105] fix: end decode operations also after failures that
 are not library errors

---
 src/pdfmm/base/PdfFilter.cpp | 24 +++++++-----------------
 1 file changed, 7 insertions(+), 17 deletions(-)

diff --git a/src/pdfmm/base/PdfFilter.cpp b/src/pdfmm/base/PdfFilter.cpp
index 54ad8e6..9facf6a 100644
--- a/src/pdfmm/base/PdfFilter.cpp
+++ b/src/pdfmm/base/PdfFilter.cpp
@@ -453,28 +453,18 @@ void PdfFilter::EndDecode()
     {
         EndDecodeImpl();
     }
-    catch (PdfError& e)
+    catch (...)
     {
-        PDFMM_PUSH_FRAME(e);
         // Clean up and close stream
         this->FailEncodeDecode();
         throw;
     }
-    try
-    {
-        if (m_OutputStream != nullptr)
-        {
-            m_OutputStream->Flush();
-            m_OutputStream = nullptr;
-        }
-    }
-    catch (PdfError& e)
-    {
-        PDFMM_PUSH_FRAME_INFO(e, "Exception caught closing filter's output stream");
-        // Closing stream failed, just get rid of it
-        m_OutputStream = nullptr;
-        throw;
-    }
+
+    // The operation is over even if flushing the output fails
+    OutputStream* output = m_OutputStream;
+    m_OutputStream = nullptr;
+    if (output != nullptr)
+        output->Flush();
 }
 
 void PdfFilter::FailEncodeDecode()
-- 
2.43.0


From 1d3b2413ed62e501ba9282804efecefc1afc9629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:06 +0000
Subject: [PATCH 093/105] fix: close the source of a moved stream before
 clearing it

---
 src/pdfmm/base/PdfObjectStream.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfObjectStream.cpp b/src/pdfmm/base/PdfObjectStream.cpp
index 0a94495..59c4bfe 100644
--- a/src/pdfmm/base/PdfObjectStream.cpp
+++ b/src/pdfmm/base/PdfObjectStream.cpp
@@ -214,8 +214,12 @@ void PdfObjectStream::MoveFrom(PdfObjectStream& rhs)
     rhs.ensureClosed();
     if (!m_Provider->TryMoveFrom(std::move(*rhs.m_Provider)))
     {
-        auto stream = rhs.GetInputStream(true);
-        this->SetData(stream, true);
+        {
+            auto stream = rhs.GetInputStream(true);
+            this->SetData(stream, true);
+        }
+
+        // Clear the moved stream only when it's not being read anymore
         rhs.m_Provider->Clear();
     }
 
-- 
2.43.0


From b748e4701feab797d7d63cd5df3b8c6ebe0aa412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:17 +0000
Subject: [PATCH 094/105] fix: PdfFont: encode a string before starting to
 write it

---
 src/pdfmm/base/PdfFont.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfFont.cpp b/src/pdfmm/base/PdfFont.cpp
index cbbb538..a8edb5c 100644
--- a/src/pdfmm/base/PdfFont.cpp
+++ b/src/pdfmm/base/PdfFont.cpp
@@ -158,9 +158,10 @@ void PdfFont::initBase(const PdfEncoding& encoding)
 
 void PdfFont::WriteStringToStream(OutputStream& stream, const string_view& str) const
 {
-    stream.Write("<");
+    // Encode the string before anything is written: it may fail
     auto encoded = m_Encoding->ConvertToEncoded(str);
     unique_ptr<PdfFilter> filter = PdfFilterFactory::Create(PdfFilterType::ASCIIHexDecode);
+    stream.Write("<");
     filter->EncodeTo(stream, encoded);
     stream.Write(">");
 }
-- 
2.43.0


From b17a331db0de6a0c9dc6aa42db3660b93f0c52ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:17 +0000
Subject: [PATCH 095/105] fix: PdfPainter: reject an invalid stroke style
 before writing a part of the operator

---
 src/pdfmm/base/PdfPainter.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/pdfmm/base/PdfPainter.cpp b/src/pdfmm/base/PdfPainter.cpp
index e3ca6ce..209e015 100644
--- a/src/pdfmm/base/PdfPainter.cpp
+++ b/src/pdfmm/base/PdfPainter.cpp
@@ -212,6 +212,24 @@ void PdfPainter::SetStrokeStyle(PdfStrokeStyle strokeStyle, const string_view& c
 {
     bool have = false;
     checkStream();
+
+    // Check the arguments before anything is written
+    switch (strokeStyle)
+    {
+        case PdfStrokeStyle::Solid:
+        case PdfStrokeStyle::Dash:
+        case PdfStrokeStyle::Dot:
+        case PdfStrokeStyle::DashDot:
+        case PdfStrokeStyle::DashDotDot:
+            break;
+        case PdfStrokeStyle::Custom:
+            if (custom.empty())
+                PDFMM_RAISE_ERROR(PdfErrorCode::InvalidStrokeStyle);
+            break;
+        default:
+            PDFMM_RAISE_ERROR(PdfErrorCode::InvalidStrokeStyle);
+    }
+
     if (strokeStyle != PdfStrokeStyle::Custom)
         m_tmpStream << "[";
 
-- 
2.43.0


From d7be6056597b5fe08f8cea6c070444b28263fbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:17 +0000
Subject: [PATCH 096/105] fix: PdfPainter: save the state and clip outside of
 the text object in DrawMultiLineText

---
 src/pdfmm/base/PdfPainter.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/base/PdfPainter.cpp b/src/pdfmm/base/PdfPainter.cpp
index 209e015..4fbb8c6 100644
--- a/src/pdfmm/base/PdfPainter.cpp
+++ b/src/pdfmm/base/PdfPainter.cpp
@@ -560,10 +560,7 @@ void PdfPainter::DrawMultiLineText(const string_view& str, double x, double y, d
     if (width <= 0.0 || height <= 0.0) // nonsense arguments
         return;
 
-    m_tmpStream << "BT" << endl;
-    writeTextState();
     drawMultiLineText(str, x, y, width, height, hAlignment, vAlignment, clip, skipSpaces);
-    m_tmpStream << "ET" << endl;
 }
 
 void PdfPainter::DrawTextAligned(const string_view& str, double x, double y, double width, PdfHorizontalAlignment hAlignment)
@@ -585,10 +582,15 @@ void PdfPainter::drawMultiLineText(const std::string_view& str, double x, double
 {
     auto& font = *m_TextState.Font;
 
+    // The graphics state can't be saved and no clipping
+    // path can be set inside a text object
     this->Save();
     if (clip)
         this->SetClipRect(x, y, width, height);
 
+    m_tmpStream << "BT" << endl;
+    writeTextState();
+
     auto expanded = this->expandTabs(str);
 
     vector<string> lines = getMultiLineTextAsLines(expanded, width, skipSpaces);
@@ -618,6 +620,8 @@ void PdfPainter::drawMultiLineText(const std::string_view& str, double x, double
         y -= font.GetLineSpacing(m_TextState);
         it++;
     }
+
+    m_tmpStream << "ET" << endl;
     this->Restore();
 }
 
-- 
2.43.0


From 27840a8fa9ba317e713a1c866dfdd6a1ba061527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:17 +0000
Subject: [PATCH 097/105] fix: PdfPainter: escape the names written to content
 streams

---
 src/pdfmm/base/PdfAcroForm.cpp         |  2 +-
 src/pdfmm/base/PdfPainter.cpp          | 26 +++++++++++++++-----------
 src/pdfmm/contrib/PdfTilingPattern.cpp |  2 +-
 3 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/pdfmm/base/PdfAcroForm.cpp b/src/pdfmm/base/PdfAcroForm.cpp
index ee52496..30c7e15 100644
--- a/src/pdfmm/base/PdfAcroForm.cpp
+++ b/src/pdfmm/base/PdfAcroForm.cpp
@@ -55,7 +55,7 @@ void PdfAcroForm::init(PdfAcroFormDefaulAppearance defaultAppearance)
 
         // Create DA key
         PdfStringStream ss;
-        ss << "0 0 0 rg /" << font->GetIdentifier().GetString() << " 12 Tf";
+        ss << "0 0 0 rg /" << font->GetIdentifier().GetEscapedName() << " 12 Tf";
         this->GetDictionary().AddKey("DA", PdfString(ss.GetString()));
     }
 }
diff --git a/src/pdfmm/base/PdfPainter.cpp b/src/pdfmm/base/PdfPainter.cpp
index 4fbb8c6..751602b 100644
--- a/src/pdfmm/base/PdfPainter.cpp
+++ b/src/pdfmm/base/PdfPainter.cpp
@@ -172,40 +172,42 @@ void PdfPainter::SetStrokingShadingPattern(const PdfShadingPattern& pattern)
 {
     checkStream();
     this->addToPageResources("Pattern", pattern.GetIdentifier(), pattern.GetObject());
-    m_tmpStream << "/Pattern CS /" << pattern.GetIdentifier().GetString() << " SCN" << endl;
+    m_tmpStream << "/Pattern CS /" << pattern.GetIdentifier().GetEscapedName() << " SCN" << endl;
 }
 
 void PdfPainter::SetShadingPattern(const PdfShadingPattern& pattern)
 {
     checkStream();
     this->addToPageResources("Pattern", pattern.GetIdentifier(), pattern.GetObject());
-    m_tmpStream << "/Pattern cs /" << pattern.GetIdentifier().GetString() << " scn" << endl;
+    m_tmpStream << "/Pattern cs /" << pattern.GetIdentifier().GetEscapedName() << " scn" << endl;
 }
 
 void PdfPainter::SetStrokingTilingPattern(const PdfTilingPattern& pattern)
 {
     checkStream();
     this->addToPageResources("Pattern", pattern.GetIdentifier(), pattern.GetObject());
-    m_tmpStream << "/Pattern CS /" << pattern.GetIdentifier().GetString() << " SCN" << endl;
+    m_tmpStream << "/Pattern CS /" << pattern.GetIdentifier().GetEscapedName() << " SCN" << endl;
 }
 
 void PdfPainter::SetStrokingTilingPattern(const string_view& patternName)
 {
+    PdfName name(patternName);
     checkStream();
-    m_tmpStream << "/Pattern CS /" << patternName << " SCN" << endl;
+    m_tmpStream << "/Pattern CS /" << name.GetEscapedName() << " SCN" << endl;
 }
 
 void PdfPainter::SetTilingPattern(const PdfTilingPattern& pattern)
 {
     checkStream();
     this->addToPageResources("Pattern", pattern.GetIdentifier(), pattern.GetObject());
-    m_tmpStream << "/Pattern cs /" << pattern.GetIdentifier().GetString() << " scn" << endl;
+    m_tmpStream << "/Pattern cs /" << pattern.GetIdentifier().GetEscapedName() << " scn" << endl;
 }
 
 void PdfPainter::SetTilingPattern(const string_view& patternName)
 {
+    PdfName name(patternName);
     checkStream();
-    m_tmpStream << "/Pattern cs /" << patternName << " scn" << endl;
+    m_tmpStream << "/Pattern cs /" << name.GetEscapedName() << " scn" << endl;
 }
 
 void PdfPainter::SetStrokeStyle(PdfStrokeStyle strokeStyle, const string_view& custom, bool inverted, double scale, bool subtractJoinCap)
@@ -831,7 +833,7 @@ void PdfPainter::DrawXObject(const PdfXObject& obj, double x, double y, double s
         << scaleY << " "
         << x << " "
         << y << " cm" << endl
-        << "/" << obj.GetIdentifier().GetString() << " Do" << endl << "Q" << endl;
+        << "/" << obj.GetIdentifier().GetEscapedName() << " Do" << endl << "Q" << endl;
 }
 
 void PdfPainter::ClosePath()
@@ -1210,7 +1212,7 @@ void PdfPainter::SetExtGState(const PdfExtGState& inGState)
 {
     checkStream();
     this->addToPageResources("ExtGState", inGState.GetIdentifier(), inGState.GetObject());
-    m_tmpStream << "/" << inGState.GetIdentifier().GetString()
+    m_tmpStream << "/" << inGState.GetIdentifier().GetEscapedName()
         << " gs" << endl;
 }
 
@@ -1223,7 +1225,8 @@ void PdfPainter::Rectangle(const PdfRect& rect, double roundX, double roundY)
 
 void PdfPainter::BeginMarkedContext(const string_view& tag)
 {
-    m_tmpStream << '/' << tag << " BMC" << endl;
+    PdfName name(tag);
+    m_tmpStream << '/' << name.GetEscapedName() << " BMC" << endl;
 }
 
 void PdfPainter::EndMarkedContext()
@@ -1324,8 +1327,9 @@ void PdfPainter::SetLineJoinStyle(PdfLineJoinStyle style)
 
 void PdfPainter::SetRenderingIntent(const string_view& intent)
 {
+    PdfName name(intent);
     checkStream();
-    m_tmpStream << "/" << intent << " ri" << endl;
+    m_tmpStream << "/" << name.GetEscapedName() << " ri" << endl;
 }
 
 void PdfPainter::SetFillColor(const PdfColor& color)
@@ -1463,7 +1467,7 @@ void PdfPainter::SetFont(const PdfFont* font, double fontSize)
 void PdfPainter::setFont(const PdfFont* font, double fontSize)
 {
     checkStream();
-    m_tmpStream << "/" << font->GetIdentifier().GetString()
+    m_tmpStream << "/" << font->GetIdentifier().GetEscapedName()
         << " " << fontSize
         << " Tf" << endl;
 }
diff --git a/src/pdfmm/contrib/PdfTilingPattern.cpp b/src/pdfmm/contrib/PdfTilingPattern.cpp
index 960635d..b31db4b 100644
--- a/src/pdfmm/contrib/PdfTilingPattern.cpp
+++ b/src/pdfmm/contrib/PdfTilingPattern.cpp
@@ -184,7 +184,7 @@ void PdfTilingPattern::Init(PdfTilingPatternType tilingType,
             << rect.GetHeight() << " "
             << rect.GetLeft() << " "
             << rect.GetBottom() << " cm" << std::endl;
-        out << "/" << image->GetIdentifier().GetString() << " Do" << std::endl;
+        out << "/" << image->GetIdentifier().GetEscapedName() << " Do" << std::endl;
     }
 
     GetObject().GetOrCreateStream().SetData(out.GetString(), { PdfFilterType::FlateDecode });
-- 
2.43.0


From be86b9a0b4298d99ffe04b0ac2c933579e639e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:17 +0000
Subject: [PATCH 098/105] fix: PdfPainter: keep the existing content exactly
 once when finishing

---
 src/pdfmm/base/PdfPainter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/base/PdfPainter.cpp b/src/pdfmm/base/PdfPainter.cpp
index 751602b..ea9f2e2 100644
--- a/src/pdfmm/base/PdfPainter.cpp
+++ b/src/pdfmm/base/PdfPainter.cpp
@@ -127,7 +127,7 @@ void PdfPainter::finishDrawing()
             }
             else
             {
-                output = m_stream->GetOutputStream();
+                output = m_stream->GetOutputStream(true);
                 // there is already content here - so let's assume we are appending
                 // as such, we MUST put in a "space" to separate whatever we do.
                 output.Write("\n");
@@ -145,10 +145,10 @@ void PdfPainter::finishDrawing()
             }
             else
             {
-                output = m_stream->GetOutputStream(true);
+                output = m_stream->GetOutputStream();
                 output.Write("q\n");
                 output.Write(buffer);
-                output.Write("Q\n");
+                output.Write("\nQ\n");
             }
         }
 
-- 
2.43.0


From f1908e08a5b789ae41659ea49b7e53934d52b1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:17 +0000
Subject: [PATCH 099/105] fix: PdfContents, PdfDocument: separate the content
 streams that are joined

---
 src/pdfmm/base/PdfContents.cpp | 8 ++++++++
 src/pdfmm/base/PdfDocument.cpp | 2 ++
 2 files changed, 10 insertions(+)

diff --git a/src/pdfmm/base/PdfContents.cpp b/src/pdfmm/base/PdfContents.cpp
index e8565a0..d8e7a66 100644
--- a/src/pdfmm/base/PdfContents.cpp
+++ b/src/pdfmm/base/PdfContents.cpp
@@ -132,12 +132,20 @@ PdfObjectStream & PdfContents::GetStreamForAppending(PdfStreamAppendFlags flags)
 
 void PdfContents::copyTo(OutputStream& stream, const PdfArray& arr) const
 {
+    bool separate = false;
     for (unsigned i = 0; i < arr.GetSize(); i++)
     {
         const PdfObjectStream* objStream;
         auto streamObj = arr.FindAt(i);
         if (streamObj != nullptr && (objStream = streamObj->GetStream()) != nullptr)
+        {
+            // The division between streams is a lexical boundary
+            if (separate)
+                stream.Write("\n");
+
             objStream->CopyTo(stream);
+            separate = true;
+        }
     }
 }
 
diff --git a/src/pdfmm/base/PdfDocument.cpp b/src/pdfmm/base/PdfDocument.cpp
index ec7f6c2..5c84e71 100644
--- a/src/pdfmm/base/PdfDocument.cpp
+++ b/src/pdfmm/base/PdfDocument.cpp
@@ -414,6 +414,8 @@ PdfRect PdfDocument::FillXObjectFromPage(PdfXObjectForm& xobj, const PdfPage& pa
                             charbuff contStreamBuffer;
                             contStream.CopyTo(contStreamBuffer);
                             output.Write(contStreamBuffer);
+                            // The division between streams is a lexical boundary
+                            output.Write("\n");
                             break;
                         }
                         else
-- 
2.43.0


From f27062e570d0b5d7d5d7c725b99b993a7609053b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:35 +0000
Subject: [PATCH 100/105] fix: PdfPainter: create the name of a colour space
 before writing its operator

---
 src/pdfmm/base/PdfPainter.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfPainter.cpp b/src/pdfmm/base/PdfPainter.cpp
index ea9f2e2..10b551a 100644
--- a/src/pdfmm/base/PdfPainter.cpp
+++ b/src/pdfmm/base/PdfPainter.cpp
@@ -1363,7 +1363,8 @@ void PdfPainter::SetFillColor(const PdfColor& color)
         case PdfColorSpace::Separation:
         {
             m_canvas->GetOrCreateResources().AddColorResource(color);
-            m_tmpStream << "/ColorSpace" << PdfName(color.GetName()).GetEscapedName() << " cs " << color.GetDensity() << " scn" << endl;
+            PdfName csName("ColorSpace" + color.GetName());
+            m_tmpStream << "/" << csName.GetEscapedName() << " cs " << color.GetDensity() << " scn" << endl;
             break;
         }
         case PdfColorSpace::Lab:
@@ -1415,7 +1416,8 @@ void PdfPainter::SetStrokeColor(const PdfColor& color)
         case PdfColorSpace::Separation:
         {
             m_canvas->GetOrCreateResources().AddColorResource(color);
-            m_tmpStream << "/ColorSpace" << PdfName(color.GetName()).GetEscapedName() << " CS " << color.GetDensity() << " SCN" << endl;
+            PdfName csName("ColorSpace" + color.GetName());
+            m_tmpStream << "/" << csName.GetEscapedName() << " CS " << color.GetDensity() << " SCN" << endl;
             break;
         }
         case PdfColorSpace::Lab:
-- 
2.43.0


From 2cad736293a00250db5eea4a88d85572e1a2ec38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:28 +0000
Subject: [PATCH 101/105] fix: PdfImmediateWriter: generate the key of the
 encryption that is used for writing

---
 src/pdfmm/base/PdfImmediateWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfImmediateWriter.cpp b/src/pdfmm/base/PdfImmediateWriter.cpp
index 2e8ba27..838e7d5 100644
--- a/src/pdfmm/base/PdfImmediateWriter.cpp
+++ b/src/pdfmm/base/PdfImmediateWriter.cpp
@@ -36,7 +36,7 @@ PdfImmediateWriter::PdfImmediateWriter(PdfIndirectObjectList& objects, const Pdf
     if (encrypt != nullptr)
     {
         this->SetEncrypt(*encrypt);
-        encrypt->GenerateEncryptionKey(GetIdentifier());
+        GetEncrypt()->GenerateEncryptionKey(GetIdentifier());
     }
 
     // start with writing the header
-- 
2.43.0


From 1b82b02c7f91ba6b48f620bf4e275adb4a784d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:28 +0000
Subject: [PATCH 102/105] fix: PdfParserObject: keep the encryption of an
 object with an unencrypted stream

---
 src/pdfmm/base/PdfParserObject.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/base/PdfParserObject.cpp b/src/pdfmm/base/PdfParserObject.cpp
index 14ba48d..9492937 100644
--- a/src/pdfmm/base/PdfParserObject.cpp
+++ b/src/pdfmm/base/PdfParserObject.cpp
@@ -216,6 +216,7 @@ void PdfParserObject::parseStream()
 
 ReadStream:
     m_device->Seek(streamOffset);	// reset it before reading!
+    auto encrypt = m_Encrypt;
     if (m_Encrypt != nullptr && !m_Encrypt->IsMetadataEncrypted())
     {
         // If metadata is not encrypted the Filter is set to "Crypt"
@@ -227,15 +228,15 @@ ReadStream:
             {
                 auto& obj = filters.MustFindAt(i);
                 if (obj.IsName() && obj.GetName() == "Crypt")
-                    m_Encrypt = nullptr;
+                    encrypt = nullptr;
             }
         }
     }
 
     // Set stream raw data without marking the object dirty
-    if (m_Encrypt != nullptr)
+    if (encrypt != nullptr)
     {
-        auto input = m_Encrypt->CreateEncryptionInputStream(*m_device, static_cast<size_t>(size), GetIndirectReference());
+        auto input = encrypt->CreateEncryptionInputStream(*m_device, static_cast<size_t>(size), GetIndirectReference());
         getOrCreateStream().InitData(*input, static_cast<ssize_t>(size), PdfFilterFactory::CreateFilterList(*this));
     }
     else
-- 
2.43.0


From 13ffb599f77a0bdddb3a177bd726ef8afda2c5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:28 +0000
Subject: [PATCH 103/105] fix: PdfDictionary: write the contents of signatures
 as they are read

---
 src/pdfmm/base/PdfDictionary.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfDictionary.cpp b/src/pdfmm/base/PdfDictionary.cpp
index c9178b3..7803c05 100644
--- a/src/pdfmm/base/PdfDictionary.cpp
+++ b/src/pdfmm/base/PdfDictionary.cpp
@@ -216,15 +216,26 @@ void PdfDictionary::Write(OutputStreamDevice& device, PdfWriteFlags writeMode,
             device.Write('\n');
     }
 
+    // "Contents" is unencrypted in /Type/Sig and /Type/DocTimeStamp
+    // dictionaries, see also PdfTokenizer::ReadDictionary
+    const PdfObject* type = this->getKey(PdfName::KeyType);
+    bool contentsUnencrypted = type != nullptr && type->GetDataType() == PdfDataType::Name &&
+        (type->GetName() == "Sig" || type->GetName() == "DocTimeStamp");
+
     for (auto& pair : m_Map)
     {
         if (pair.first != PdfName::KeyType)
         {
+            PdfStatefulEncrypt actualEncrypt;
+            if (!(contentsUnencrypted && pair.first == "Contents"
+                    && pair.second.IsString() && pair.second.GetString().IsHex()))
+                actualEncrypt = encrypt;
+
             pair.first.Write(device, writeMode, encrypt, buffer);
             if ((writeMode & PdfWriteFlags::Clean) == PdfWriteFlags::Clean)
                 device.Write(' '); // write a separator
 
-            pair.second.GetVariant().Write(device, writeMode, encrypt, buffer);
+            pair.second.GetVariant().Write(device, writeMode, actualEncrypt, buffer);
             if ((writeMode & PdfWriteFlags::Clean) == PdfWriteFlags::Clean)
                 device.Write('\n');
         }
-- 
2.43.0


From cd88b986f7c8d12fa003c0c2ece2110fb461887d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:28 +0000
Subject: [PATCH 104/105] fix: PdfObject: write a stream with a Crypt filter as
 it is read

---
 src/pdfmm/base/PdfObject.cpp | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/base/PdfObject.cpp b/src/pdfmm/base/PdfObject.cpp
index 2e29b64..3e255a7 100644
--- a/src/pdfmm/base/PdfObject.cpp
+++ b/src/pdfmm/base/PdfObject.cpp
@@ -210,6 +210,25 @@ void PdfObject::initObject()
     m_IsDelayedLoadStreamDone = true;
 }
 
+// Streams with a "Crypt" filter are not encrypted
+// when the document has unencrypted metadata
+static bool hasCryptFilter(const PdfDictionary& dict)
+{
+    auto filterObj = dict.FindKey(PdfName::KeyFilter);
+    if (filterObj == nullptr || !filterObj->IsArray())
+        return false;
+
+    auto& filters = filterObj->GetArray();
+    for (unsigned i = 0; i < filters.GetSize(); i++)
+    {
+        auto filter = filters.FindAt(i);
+        if (filter != nullptr && filter->IsName() && filter->GetName() == "Crypt")
+            return true;
+    }
+
+    return false;
+}
+
 void PdfObject::Write(OutputStreamDevice& device, PdfWriteFlags writeMode,
     const PdfEncrypt* encrypt_, charbuff& buffer) const
 {
@@ -220,6 +239,11 @@ void PdfObject::Write(OutputStreamDevice& device, PdfWriteFlags writeMode,
     if (encrypt_ != nullptr)
         encrypt = PdfStatefulEncrypt(*encrypt_, m_IndirectReference);
 
+    PdfStatefulEncrypt streamEncrypt = encrypt;
+    if (m_Stream != nullptr && encrypt_ != nullptr && !encrypt_->IsMetadataEncrypted()
+            && hasCryptFilter(m_Variant.GetDictionary()))
+        streamEncrypt = PdfStatefulEncrypt();
+
     if (m_IndirectReference.IsIndirect())
     {
         if ((writeMode & PdfWriteFlags::Clean) == PdfWriteFlags::None
@@ -263,8 +287,8 @@ void PdfObject::Write(OutputStreamDevice& device, PdfWriteFlags writeMode,
         if (!m_Stream->GetProvider().IsLengthHandled())
         {
             size_t length = m_Stream->GetLength();
-            if (encrypt.HasEncrypt())
-                length = encrypt.CalculateStreamLength(length);
+            if (streamEncrypt.HasEncrypt())
+                length = streamEncrypt.CalculateStreamLength(length);
 
             // Add the key without triggering SetDirty
             const_cast<PdfObject&>(*this).m_Variant.GetDictionary()
@@ -276,7 +300,7 @@ void PdfObject::Write(OutputStreamDevice& device, PdfWriteFlags writeMode,
     device.Write('\n');
 
     if (m_Stream != nullptr)
-        m_Stream->Write(device, encrypt);
+        m_Stream->Write(device, streamEncrypt);
 
     if (m_IndirectReference.IsIndirect())
         device.Write("endobj\n");
-- 
2.43.0


From 6fc9d1ae4e265256664573131f79ca3fd9bc1d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:57:49 +0000
Subject: [PATCH 105/105] fix: PdfXRefStream: report offsets that don't fit in
 the entries instead of truncating them

---
 src/pdfmm/base/PdfXRefStream.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfXRefStream.cpp b/src/pdfmm/base/PdfXRefStream.cpp
index 6bdbf35..b461247 100644
--- a/src/pdfmm/base/PdfXRefStream.cpp
+++ b/src/pdfmm/base/PdfXRefStream.cpp
@@ -12,6 +12,8 @@
 #include "PdfWriter.h"
 #include "PdfDictionary.h"
 
+#include <limits>
+
 using namespace mm;
 
 PdfXRefStream::PdfXRefStream(PdfWriter& writer) :
@@ -71,6 +73,9 @@ void PdfXRefStream::WriteXRefEntry(OutputStreamDevice& device, const PdfReferenc
             stmEntry.Variant = AS_BIG_ENDIAN(static_cast<uint32_t>(entry.ObjectNumber));
             break;
         case XRefEntryType::InUse:
+            if (entry.Offset > std::numeric_limits<uint32_t>::max())
+                PDFMM_RAISE_ERROR_INFO(PdfErrorCode::ValueOutOfRange, "The offset doesn't fit in the XRef stream");
+
             stmEntry.Variant = AS_BIG_ENDIAN(static_cast<uint32_t>(entry.Offset));
             break;
         default:
@@ -92,7 +97,11 @@ void PdfXRefStream::EndWriteImpl(OutputStreamDevice& device, charbuff& buffer)
     m_xrefStreamObj->GetDictionary().AddKey("W", wArr);
  
     // Set the actual offset of the XRefStm object
-    uint32_t offset = (uint32_t)device.GetPosition();
+    uint64_t position = device.GetPosition();
+    if (position > std::numeric_limits<uint32_t>::max())
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::ValueOutOfRange, "The offset doesn't fit in the XRef stream");
+
+    uint32_t offset = (uint32_t)position;
     PDFMM_ASSERT(m_xrefStreamEntryIndex >= 0);
     m_rawEntries[m_xrefStreamEntryIndex].Variant = AS_BIG_ENDIAN(offset);
  
-- 
2.43.0

