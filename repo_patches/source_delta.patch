From cb356b17141a84434684610fefdf6b5d4d236efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:28 +0000
Subject: [PATCH 01/30] fix: commsdsl2comms reports failure to write default
 options files

---
 app/commsdsl2comms/src/CommsDefaultOptions.cpp | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/app/commsdsl2comms/src/CommsDefaultOptions.cpp b/app/commsdsl2comms/src/CommsDefaultOptions.cpp
index 06f411c..a713a34 100644
--- a/app/commsdsl2comms/src/CommsDefaultOptions.cpp
+++ b/app/commsdsl2comms/src/CommsDefaultOptions.cpp
@@ -242,8 +242,7 @@ bool CommsDefaultOptions::commsWriteDefaultOptionsInternal() const
         repl["ORIG"] = strings::genOrigSuffixStr();
     }
 
-    commsWriteFileInternal(strings::genDefaultOptionsClassStr(), m_commsGenerator, util::genProcessTemplate(Templ, repl, true));
-    return true;
+    return commsWriteFileInternal(strings::genDefaultOptionsClassStr(), m_commsGenerator, util::genProcessTemplate(Templ, repl, true));
 }
 
 bool CommsDefaultOptions::commsWriteClientDefaultOptionsInternal() const
@@ -263,8 +262,7 @@ bool CommsDefaultOptions::commsWriteClientDefaultOptionsInternal() const
         repl["ORIG"] = strings::genOrigSuffixStr();
     }
 
-    commsWriteFileInternal(name, m_commsGenerator, util::genProcessTemplate(commsExtOptionsTempl(), repl, true));
-    return true;
+    return commsWriteFileInternal(name, m_commsGenerator, util::genProcessTemplate(commsExtOptionsTempl(), repl, true));
 }
 
 bool CommsDefaultOptions::commsWriteServerDefaultOptionsInternal() const
@@ -284,8 +282,7 @@ bool CommsDefaultOptions::commsWriteServerDefaultOptionsInternal() const
         repl["ORIG"] = strings::genOrigSuffixStr();
     }
 
-    commsWriteFileInternal(name, m_commsGenerator, util::genProcessTemplate(commsExtOptionsTempl(), repl, true));
-    return true;
+    return commsWriteFileInternal(name, m_commsGenerator, util::genProcessTemplate(commsExtOptionsTempl(), repl, true));
 }
 
 bool CommsDefaultOptions::commsWriteDataViewDefaultOptionsInternal() const
@@ -305,8 +302,7 @@ bool CommsDefaultOptions::commsWriteDataViewDefaultOptionsInternal() const
         repl["ORIG"] = strings::genOrigSuffixStr();
     }
 
-    commsWriteFileInternal(name, m_commsGenerator, util::genProcessTemplate(commsExtOptionsTempl(), repl, true));
-    return true;
+    return commsWriteFileInternal(name, m_commsGenerator, util::genProcessTemplate(commsExtOptionsTempl(), repl, true));
 }
 
 bool CommsDefaultOptions::commsWriteBareMetalDefaultOptionsInternal() const
@@ -334,8 +330,7 @@ bool CommsDefaultOptions::commsWriteBareMetalDefaultOptionsInternal() const
         repl["ORIG"] = strings::genOrigSuffixStr();
     }
 
-    commsWriteFileInternal(name, m_commsGenerator, util::genProcessTemplate(commsExtOptionsTempl(), repl, true));
-    return true;
+    return commsWriteFileInternal(name, m_commsGenerator, util::genProcessTemplate(commsExtOptionsTempl(), repl, true));
 }
 
 bool CommsDefaultOptions::commsWriteMsgFactoryDefaultOptionsInternal() const
@@ -518,8 +513,7 @@ bool CommsDefaultOptions::commsWriteSingleMsgFactoryDefaultOptionsInternal(
         repl["ORIG"] = strings::genOrigSuffixStr();
     }
 
-    commsWriteFileInternal(name, m_commsGenerator, util::genProcessTemplate(commsMsgFactoryOptionsTempl(), repl, true));
-    return true;
+    return commsWriteFileInternal(name, m_commsGenerator, util::genProcessTemplate(commsMsgFactoryOptionsTempl(), repl, true));
 }
 
 } // namespace commsdsl2comms
\ No newline at end of file
-- 
2.43.0


From 5495ff2911f55d50363cfab4a8b9ba1ab9eb2920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:28 +0000
Subject: [PATCH 02/30] fix: commsdsl2swig CMakeLists template without custom
 append code

---
 app/commsdsl2swig/src/SwigCmake.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/commsdsl2swig/src/SwigCmake.cpp b/app/commsdsl2swig/src/SwigCmake.cpp
index a8f515a..6fe8e17 100644
--- a/app/commsdsl2swig/src/SwigCmake.cpp
+++ b/app/commsdsl2swig/src/SwigCmake.cpp
@@ -117,7 +117,7 @@ bool SwigCmake::swigWriteInternal() const
         "        $<$<CXX_COMPILER_ID:Clang>:-ftemplate-depth=2048 -fconstexpr-depth=4096 -fbracket-depth=2048>\n"
         "    )\n"
         "endforeach()\n\n"
-        "#^#APPEND#$#"
+        "#^#APPEND#$#\n"
         ;
 
     util::GenReplacementMap repl = {
-- 
2.43.0


From 2fa5602a892586e4957ad67d277875d5ad690f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:59 +0000
Subject: [PATCH 03/30] fix: existing custom code file that cannot be opened is
 an error, not ignored

---
 app/commsdsl2tools_qt/src/ToolsQtPlugin.cpp | 16 ++++++++++++--
 lib/include/commsdsl/gen/util.h             |  2 +-
 lib/src/gen/GenGenerator.cpp                | 23 ++++++++++++++++++---
 lib/src/gen/util.cpp                        |  9 +++++++-
 4 files changed, 43 insertions(+), 7 deletions(-)

diff --git a/app/commsdsl2tools_qt/src/ToolsQtPlugin.cpp b/app/commsdsl2tools_qt/src/ToolsQtPlugin.cpp
index d0cef92..52bdda1 100644
--- a/app/commsdsl2tools_qt/src/ToolsQtPlugin.cpp
+++ b/app/commsdsl2tools_qt/src/ToolsQtPlugin.cpp
@@ -424,7 +424,13 @@ bool ToolsQtPlugin::toolsWritePluginJsonInternal()
     }
 
     auto replaceFilePath = util::genPathAddElem(m_toolsGenerator.genGetCodeDir(), relPath + strings::genReplaceFileSuffixStr());
-    auto replaceCode = util::genReadFileContents(replaceFilePath);
+    bool replaceReadError = false;
+    auto replaceCode = util::genReadFileContents(replaceFilePath, &replaceReadError);
+    if (replaceReadError) {
+        m_toolsGenerator.genLogger().genError("Failed to read \"" + replaceFilePath + "\".");
+        return false;
+    }
+
     if (!replaceCode.empty()) {
         stream << replaceCode;
         stream.flush();
@@ -489,7 +495,13 @@ bool ToolsQtPlugin::toolsWritePluginConfigInternal()
     }
 
     auto replaceFilePath = util::genPathAddElem(m_toolsGenerator.genGetCodeDir(), relPath + strings::genReplaceFileSuffixStr());
-    auto replaceCode = util::genReadFileContents(replaceFilePath);
+    bool replaceReadError = false;
+    auto replaceCode = util::genReadFileContents(replaceFilePath, &replaceReadError);
+    if (replaceReadError) {
+        m_toolsGenerator.genLogger().genError("Failed to read \"" + replaceFilePath + "\".");
+        return false;
+    }
+
     if (!replaceCode.empty()) {
         stream << replaceCode;
         stream.flush();
diff --git a/lib/include/commsdsl/gen/util.h b/lib/include/commsdsl/gen/util.h
index a0525ea..b7607c4 100644
--- a/lib/include/commsdsl/gen/util.h
+++ b/lib/include/commsdsl/gen/util.h
@@ -66,7 +66,7 @@ void genAddToStrList(const std::string& value, GenStringsList& list);
 
 std::string genStrMakeMultiline(const std::string& value, unsigned len = 60, bool dropReplacedWhiteChar = true);
 
-std::string genReadFileContents(const std::string& filePath);
+std::string genReadFileContents(const std::string& filePath, bool* readError = nullptr);
 bool genIsFileReadable(const std::string& filePath);
 
 const std::string& genDisplayName(const std::string& dslDisplayName, const std::string& dslName);
diff --git a/lib/src/gen/GenGenerator.cpp b/lib/src/gen/GenGenerator.cpp
index 9cf55fb..80ebec3 100644
--- a/lib/src/gen/GenGenerator.cpp
+++ b/lib/src/gen/GenGenerator.cpp
@@ -289,6 +289,16 @@ public:
         return m_versionIndependentCodeForced;
     }
 
+    void genSetCodeReadFailed()
+    {
+        m_codeReadFailed = true;
+    }
+
+    bool genCodeReadFailed() const
+    {
+        return m_codeReadFailed;
+    }
+
     void genSetCodeInjectCommentsRequested(bool value)
     {
         m_codeInjectCommentsRequested = value;
@@ -684,6 +694,7 @@ private:
     mutable std::vector<std::string> m_createdDirectories;
     bool m_versionIndependentCodeForced = false;
     bool m_codeInjectCommentsRequested = false;
+    bool m_codeReadFailed = false;
 };
 
 GenGenerator::GenGenerator() :
@@ -1059,7 +1070,7 @@ bool GenGenerator::genPrepare(const GenFilesList& files)
         return false;
     }
 
-    return genPrepareImpl();
+    return genPrepareImpl() && (!m_impl->genCodeReadFailed());
 }
 
 bool GenGenerator::genWrite()
@@ -1073,7 +1084,7 @@ bool GenGenerator::genWrite()
         return false;
     }
 
-    return genWriteImpl();
+    return genWriteImpl() && (!m_impl->genCodeReadFailed());
 }
 
 bool GenGenerator::genDoesElementExist(
@@ -1424,7 +1435,13 @@ std::string GenGenerator::genReadCodeInjectCode(
             }
         };
 
-    auto code = util::genReadFileContents(path);
+    bool readError = false;
+    auto code = util::genReadFileContents(path, &readError);
+    if (readError) {
+        genLogger().genError("Failed to read \"" + path + "\".");
+        m_impl->genSetCodeReadFailed();
+    }
+
     if (!code.empty()) {
         updateRealCodeInjected(true);
         return code;
diff --git a/lib/src/gen/util.cpp b/lib/src/gen/util.cpp
index 0ba8e7c..f4227df 100644
--- a/lib/src/gen/util.cpp
+++ b/lib/src/gen/util.cpp
@@ -22,11 +22,13 @@
 #include <algorithm>
 #include <cassert>
 #include <cctype>
+#include <filesystem>
 #include <fstream>
 #include <iomanip>
 #include <iterator>
 #include <limits>
 #include <sstream>
+#include <system_error>
 
 namespace commsdsl
 {
@@ -699,13 +701,18 @@ std::string genStrMakeMultiline(const std::string& value, unsigned len, bool dro
     return result;
 }
 
-std::string genReadFileContents(const std::string& filePath)
+std::string genReadFileContents(const std::string& filePath, bool* readError)
 {
     std::string result;
     std::ifstream stream(filePath);
     if (stream) {
         result.assign(std::istreambuf_iterator<char>(stream), (std::istreambuf_iterator<char>()));
     }
+    else if (readError != nullptr) {
+        // Missing file is not an error, while inability to open existing one is
+        std::error_code ec;
+        *readError = (std::filesystem::status(filePath, ec).type() != std::filesystem::file_type::not_found);
+    }
 
     return result;
 }
-- 
2.43.0


From 3db4a62d0e47d3aa45cbd4845b748cf7c9320f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:59 +0000
Subject: [PATCH 04/30] fix: report the file that failed to be written

---
 app/commsdsl2c/src/CField.cpp                 | 21 ++++++++--
 app/commsdsl2c/src/CFrame.cpp                 | 21 ++++++++--
 app/commsdsl2c/src/CInterface.cpp             | 21 ++++++++--
 app/commsdsl2c/src/CMessage.cpp               | 21 ++++++++--
 .../src/CommsDefaultOptions.cpp               |  7 +++-
 app/commsdsl2comms/src/CommsDispatch.cpp      |  7 +++-
 app/commsdsl2comms/src/CommsField.cpp         | 14 ++++++-
 app/commsdsl2comms/src/CommsFrame.cpp         | 21 ++++++++--
 app/commsdsl2comms/src/CommsInputMessages.cpp |  7 +++-
 app/commsdsl2comms/src/CommsInterface.cpp     | 14 ++++++-
 app/commsdsl2comms/src/CommsMessage.cpp       | 14 ++++++-
 app/commsdsl2comms/src/CommsMsgFactory.cpp    |  7 +++-
 .../src/EmscriptenField.cpp                   | 14 ++++++-
 .../src/EmscriptenFrame.cpp                   | 14 ++++++-
 .../src/EmscriptenInterface.cpp               | 14 ++++++-
 .../src/EmscriptenMessage.cpp                 | 14 ++++++-
 app/commsdsl2swig/src/SwigField.cpp           |  7 +++-
 app/commsdsl2swig/src/SwigFrame.cpp           |  7 +++-
 app/commsdsl2swig/src/SwigInterface.cpp       |  7 +++-
 app/commsdsl2swig/src/SwigMessage.cpp         |  7 +++-
 .../src/ToolsQtDefaultOptions.cpp             |  7 +++-
 .../src/ToolsQtInterface.cpp                  | 14 ++++++-
 app/commsdsl2tools_qt/src/ToolsQtPlugin.cpp   | 42 ++++++++++++++++---
 23 files changed, 276 insertions(+), 46 deletions(-)

diff --git a/app/commsdsl2c/src/CField.cpp b/app/commsdsl2c/src/CField.cpp
index 715d308..f44849d 100644
--- a/app/commsdsl2c/src/CField.cpp
+++ b/app/commsdsl2c/src/CField.cpp
@@ -603,7 +603,12 @@ bool CField::cWriteHeaderInternal() const
 
     stream << util::genProcessTemplate(Templ, repl, true);
     stream.flush();
-    return stream.good();
+    if (!stream.good()) {
+        logger.genError("Failed to write \"" + filePath + "\".");
+        return false;
+    }
+
+    return true;
 }
 
 bool CField::cWriteSrcInternal() const
@@ -643,7 +648,12 @@ bool CField::cWriteSrcInternal() const
 
     stream << util::genProcessTemplate(Templ, repl, true);
     stream.flush();
-    return stream.good();
+    if (!stream.good()) {
+        logger.genError("Failed to write \"" + filePath + "\".");
+        return false;
+    }
+
+    return true;
 }
 
 bool CField::cWriteCommsHeaderInternal() const
@@ -680,7 +690,12 @@ bool CField::cWriteCommsHeaderInternal() const
 
     stream << util::genProcessTemplate(Templ, repl, true);
     stream.flush();
-    return stream.good();
+    if (!stream.good()) {
+        logger.genError("Failed to write \"" + filePath + "\".");
+        return false;
+    }
+
+    return true;
 }
 
 std::string CField::cHeaderIncludesInternal() const
diff --git a/app/commsdsl2c/src/CFrame.cpp b/app/commsdsl2c/src/CFrame.cpp
index b1fc930..51f6770 100644
--- a/app/commsdsl2c/src/CFrame.cpp
+++ b/app/commsdsl2c/src/CFrame.cpp
@@ -197,7 +197,12 @@ bool CFrame::cWriteHeaderInternal() const
 
     stream << util::genProcessTemplate(Templ, repl, true);
     stream.flush();
-    return stream.good();
+    if (!stream.good()) {
+        logger.genError("Failed to write \"" + filePath + "\".");
+        return false;
+    }
+
+    return true;
 }
 
 bool CFrame::cWriteSourceInternal() const
@@ -239,7 +244,12 @@ bool CFrame::cWriteSourceInternal() const
 
     stream << util::genProcessTemplate(Templ, repl, true);
     stream.flush();
-    return stream.good();
+    if (!stream.good()) {
+        logger.genError("Failed to write \"" + filePath + "\".");
+        return false;
+    }
+
+    return true;
 }
 
 bool CFrame::cWriteCommsHeaderInternal() const
@@ -277,7 +287,12 @@ bool CFrame::cWriteCommsHeaderInternal() const
 
     stream << util::genProcessTemplate(Templ, repl, true);
     stream.flush();
-    return stream.good();
+    if (!stream.good()) {
+        logger.genError("Failed to write \"" + filePath + "\".");
+        return false;
+    }
+
+    return true;
 }
 
 std::string CFrame::cHeaderIncludesInternal() const
diff --git a/app/commsdsl2c/src/CInterface.cpp b/app/commsdsl2c/src/CInterface.cpp
index b5562c2..da02b0b 100644
--- a/app/commsdsl2c/src/CInterface.cpp
+++ b/app/commsdsl2c/src/CInterface.cpp
@@ -172,7 +172,12 @@ bool CInterface::cWriteHeaderInternal() const
 
     stream << util::genProcessTemplate(Templ, repl, true);
     stream.flush();
-    return stream.good();
+    if (!stream.good()) {
+        logger.genError("Failed to write \"" + filePath + "\".");
+        return false;
+    }
+
+    return true;
 }
 
 bool CInterface::cWriteSourceInternal() const
@@ -214,7 +219,12 @@ bool CInterface::cWriteSourceInternal() const
 
     stream << util::genProcessTemplate(Templ, repl, true);
     stream.flush();
-    return stream.good();
+    if (!stream.good()) {
+        logger.genError("Failed to write \"" + filePath + "\".");
+        return false;
+    }
+
+    return true;
 }
 
 bool CInterface::cWriteCommsHeaderInternal() const
@@ -306,7 +316,12 @@ bool CInterface::cWriteCommsHeaderInternal() const
 
     stream << util::genProcessTemplate(Templ, repl, true);
     stream.flush();
-    return stream.good();
+    if (!stream.good()) {
+        logger.genError("Failed to write \"" + filePath + "\".");
+        return false;
+    }
+
+    return true;
 }
 
 std::string CInterface::cHeaderIncludesInternal() const
diff --git a/app/commsdsl2c/src/CMessage.cpp b/app/commsdsl2c/src/CMessage.cpp
index b92d176..31854cb 100644
--- a/app/commsdsl2c/src/CMessage.cpp
+++ b/app/commsdsl2c/src/CMessage.cpp
@@ -166,7 +166,12 @@ bool CMessage::cWriteHeaderInternal() const
 
     stream << util::genProcessTemplate(Templ, repl, true);
     stream.flush();
-    return stream.good();
+    if (!stream.good()) {
+        logger.genError("Failed to write \"" + filePath + "\".");
+        return false;
+    }
+
+    return true;
 }
 
 bool CMessage::cWriteSourceInternal() const
@@ -208,7 +213,12 @@ bool CMessage::cWriteSourceInternal() const
 
     stream << util::genProcessTemplate(Templ, repl, true);
     stream.flush();
-    return stream.good();
+    if (!stream.good()) {
+        logger.genError("Failed to write \"" + filePath + "\".");
+        return false;
+    }
+
+    return true;
 }
 
 bool CMessage::cWriteCommsHeaderInternal() const
@@ -248,7 +258,12 @@ bool CMessage::cWriteCommsHeaderInternal() const
 
     stream << util::genProcessTemplate(Templ, repl, true);
     stream.flush();
-    return stream.good();
+    if (!stream.good()) {
+        logger.genError("Failed to write \"" + filePath + "\".");
+        return false;
+    }
+
+    return true;
 }
 
 std::string CMessage::cHeaderIncludesInternal() const
diff --git a/app/commsdsl2comms/src/CommsDefaultOptions.cpp b/app/commsdsl2comms/src/CommsDefaultOptions.cpp
index a713a34..606093d 100644
--- a/app/commsdsl2comms/src/CommsDefaultOptions.cpp
+++ b/app/commsdsl2comms/src/CommsDefaultOptions.cpp
@@ -104,7 +104,12 @@ bool commsWriteFileInternal(
 
     stream << data;
     stream.flush();
-    return stream.good();
+    if (!stream.good()) {
+        generator.genLogger().genError("Failed to write \"" + filePath + "\".");
+        return false;
+    }
+
+    return true;
 }
 
 const std::string& commsExtOptionsTempl()
diff --git a/app/commsdsl2comms/src/CommsDispatch.cpp b/app/commsdsl2comms/src/CommsDispatch.cpp
index eab8655..4b08f45 100644
--- a/app/commsdsl2comms/src/CommsDispatch.cpp
+++ b/app/commsdsl2comms/src/CommsDispatch.cpp
@@ -67,7 +67,12 @@ bool commsWriteFileInternal(
 
     stream << data;
     stream.flush();
-    return stream.good();
+    if (!stream.good()) {
+        generator.genLogger().genError("Failed to write \"" + filePath + "\".");
+        return false;
+    }
+
+    return true;
 }
 
 const std::string& commsDispatchTempl()
diff --git a/app/commsdsl2comms/src/CommsField.cpp b/app/commsdsl2comms/src/CommsField.cpp
index 5235e3a..087143d 100644
--- a/app/commsdsl2comms/src/CommsField.cpp
+++ b/app/commsdsl2comms/src/CommsField.cpp
@@ -1199,7 +1199,12 @@ bool CommsField::commsWriteCommonInternal() const
 
     stream << util::genProcessTemplate(Templ, repl, true);
     stream.flush();
-    return stream.good();
+    if (!stream.good()) {
+        logger.genError("Failed to write \"" + filePath + "\".");
+        return false;
+    }
+
+    return true;
 }
 
 bool CommsField::commsWriteDefInternal() const
@@ -1244,7 +1249,12 @@ bool CommsField::commsWriteDefInternal() const
 
     stream << util::genProcessTemplate(Templ, repl, true);
     stream.flush();
-    return stream.good();
+    if (!stream.good()) {
+        logger.genError("Failed to write \"" + filePath + "\".");
+        return false;
+    }
+
+    return true;
 }
 
 std::string CommsField::commsFieldDefCodeInternal() const
diff --git a/app/commsdsl2comms/src/CommsFrame.cpp b/app/commsdsl2comms/src/CommsFrame.cpp
index c843b7c..77d5cff 100644
--- a/app/commsdsl2comms/src/CommsFrame.cpp
+++ b/app/commsdsl2comms/src/CommsFrame.cpp
@@ -193,7 +193,12 @@ bool CommsFrame::commsWriteCommonInternal() const
 
     stream << util::genProcessTemplate(Templ, repl, true);
     stream.flush();
-    return stream.good();
+    if (!stream.good()) {
+        gen.genLogger().genError("Failed to write \"" + filePath + "\".");
+        return false;
+    }
+
+    return true;
 }
 
 bool CommsFrame::commsWriteDefInternal() const
@@ -221,7 +226,12 @@ bool CommsFrame::commsWriteDefInternal() const
     if (codeReplaced) {
         stream << replaceCode;
         stream.flush();
-        return stream.good();
+        if (!stream.good()) {
+            gen.genLogger().genError("Failed to write \"" + filePath + "\".");
+            return false;
+        }
+
+        return true;
     }
 
     static const std::string Templ =
@@ -306,7 +316,12 @@ bool CommsFrame::commsWriteDefInternal() const
 
     stream << util::genProcessTemplate(Templ, repl, true);
     stream.flush();
-    return stream.good();
+    if (!stream.good()) {
+        gen.genLogger().genError("Failed to write \"" + filePath + "\".");
+        return false;
+    }
+
+    return true;
 }
 
 std::string CommsFrame::commsCommonIncludesInternal() const
diff --git a/app/commsdsl2comms/src/CommsInputMessages.cpp b/app/commsdsl2comms/src/CommsInputMessages.cpp
index 7b0645b..bbac09f 100644
--- a/app/commsdsl2comms/src/CommsInputMessages.cpp
+++ b/app/commsdsl2comms/src/CommsInputMessages.cpp
@@ -149,7 +149,12 @@ bool writeFileInternal(
 
     stream << util::genProcessTemplate(Templ, repl, true);
     stream.flush();
-    return stream.good();
+    if (!stream.good()) {
+        generator.genLogger().genError("Failed to write \"" + filePath + "\".");
+        return false;
+    }
+
+    return true;
 }
 
 } // namespace
diff --git a/app/commsdsl2comms/src/CommsInterface.cpp b/app/commsdsl2comms/src/CommsInterface.cpp
index 7365a18..cc616c8 100644
--- a/app/commsdsl2comms/src/CommsInterface.cpp
+++ b/app/commsdsl2comms/src/CommsInterface.cpp
@@ -269,7 +269,12 @@ bool CommsInterface::commsWriteCommonInternal() const
 
     stream << util::genProcessTemplate(Templ, repl, true);
     stream.flush();
-    return stream.good();
+    if (!stream.good()) {
+        gen.genLogger().genError("Failed to write \"" + filePath + "\".");
+        return false;
+    }
+
+    return true;
 }
 
 bool CommsInterface::commsWriteDefInternal() const
@@ -295,7 +300,12 @@ bool CommsInterface::commsWriteDefInternal() const
 
             stream << content;
             stream.flush();
-            return stream.good();
+            if (!stream.good()) {
+                logger.genError("Failed to write \"" + filePath + "\".");
+                return false;
+            }
+
+            return true;
         };
 
     auto genFilePath = comms::genHeaderPathFor(*this, gen);
diff --git a/app/commsdsl2comms/src/CommsMessage.cpp b/app/commsdsl2comms/src/CommsMessage.cpp
index 6d40103..4d8cd99 100644
--- a/app/commsdsl2comms/src/CommsMessage.cpp
+++ b/app/commsdsl2comms/src/CommsMessage.cpp
@@ -621,7 +621,12 @@ bool CommsMessage::commsWriteCommonInternal() const
 
     stream << util::genProcessTemplate(Templ, repl, true);
     stream.flush();
-    return stream.good();
+    if (!stream.good()) {
+        logger.genError("Failed to write \"" + filePath + "\".");
+        return false;
+    }
+
+    return true;
 }
 
 bool CommsMessage::commsWriteDefInternal() const
@@ -641,7 +646,12 @@ bool CommsMessage::commsWriteDefInternal() const
 
             stream << content;
             stream.flush();
-            return stream.good();
+            if (!stream.good()) {
+                logger.genError("Failed to write \"" + filePath + "\".");
+                return false;
+            }
+
+            return true;
         };
 
     auto genFilePath = comms::genHeaderPathFor(*this, gen);
diff --git a/app/commsdsl2comms/src/CommsMsgFactory.cpp b/app/commsdsl2comms/src/CommsMsgFactory.cpp
index a8c14a5..074d167 100644
--- a/app/commsdsl2comms/src/CommsMsgFactory.cpp
+++ b/app/commsdsl2comms/src/CommsMsgFactory.cpp
@@ -392,7 +392,12 @@ bool commsWriteFileInternal(
 
     stream << util::genProcessTemplate(Templ, repl, true);
     stream.flush();
-    return stream.good();
+    if (!stream.good()) {
+        generator.genLogger().genError("Failed to write \"" + filePath + "\".");
+        return false;
+    }
+
+    return true;
 }
 
 } // namespace
diff --git a/app/commsdsl2emscripten/src/EmscriptenField.cpp b/app/commsdsl2emscripten/src/EmscriptenField.cpp
index a170fcf..efe1ac0 100644
--- a/app/commsdsl2emscripten/src/EmscriptenField.cpp
+++ b/app/commsdsl2emscripten/src/EmscriptenField.cpp
@@ -473,7 +473,12 @@ bool EmscriptenField::emscriptenWriteHeaderInternal() const
 
     stream << util::genProcessTemplate(Templ, repl, true);
     stream.flush();
-    return stream.good();
+    if (!stream.good()) {
+        logger.genError("Failed to write \"" + filePath + "\".");
+        return false;
+    }
+
+    return true;
 }
 
 bool EmscriptenField::emscriptenWriteSrcInternal() const
@@ -511,7 +516,12 @@ bool EmscriptenField::emscriptenWriteSrcInternal() const
 
     stream << util::genProcessTemplate(Templ, repl, true);
     stream.flush();
-    return stream.good();
+    if (!stream.good()) {
+        logger.genError("Failed to write \"" + filePath + "\".");
+        return false;
+    }
+
+    return true;
 }
 
 std::string EmscriptenField::emscriptenHeaderIncludesInternal() const
diff --git a/app/commsdsl2emscripten/src/EmscriptenFrame.cpp b/app/commsdsl2emscripten/src/EmscriptenFrame.cpp
index 3f5207b..2c9ac41 100644
--- a/app/commsdsl2emscripten/src/EmscriptenFrame.cpp
+++ b/app/commsdsl2emscripten/src/EmscriptenFrame.cpp
@@ -168,7 +168,12 @@ bool EmscriptenFrame::emscriptenWriteHeaderInternal() const
 
     stream << util::genProcessTemplate(Templ, repl, true);
     stream.flush();
-    return stream.good();
+    if (!stream.good()) {
+        logger.genError("Failed to write \"" + filePath + "\".");
+        return false;
+    }
+
+    return true;
 }
 
 bool EmscriptenFrame::emscriptenWriteSourceInternal() const
@@ -211,7 +216,12 @@ bool EmscriptenFrame::emscriptenWriteSourceInternal() const
 
     stream << util::genProcessTemplate(Templ, repl, true);
     stream.flush();
-    return stream.good();
+    if (!stream.good()) {
+        logger.genError("Failed to write \"" + filePath + "\".");
+        return false;
+    }
+
+    return true;
 }
 
 std::string EmscriptenFrame::emscriptenHeaderIncludesInternal() const
diff --git a/app/commsdsl2emscripten/src/EmscriptenInterface.cpp b/app/commsdsl2emscripten/src/EmscriptenInterface.cpp
index 2051a7c..2ed3af3 100644
--- a/app/commsdsl2emscripten/src/EmscriptenInterface.cpp
+++ b/app/commsdsl2emscripten/src/EmscriptenInterface.cpp
@@ -114,7 +114,12 @@ bool EmscriptenInterface::emscriptenWriteHeaderInternal() const
 
     stream << util::genProcessTemplate(Templ, repl, true);
     stream.flush();
-    return stream.good();
+    if (!stream.good()) {
+        logger.genError("Failed to write \"" + filePath + "\".");
+        return false;
+    }
+
+    return true;
 }
 
 bool EmscriptenInterface::emscriptenWriteSourceInternal() const
@@ -158,7 +163,12 @@ bool EmscriptenInterface::emscriptenWriteSourceInternal() const
 
     stream << util::genProcessTemplate(Templ, repl, true);
     stream.flush();
-    return stream.good();
+    if (!stream.good()) {
+        logger.genError("Failed to write \"" + filePath + "\".");
+        return false;
+    }
+
+    return true;
 }
 
 std::string EmscriptenInterface::emscriptenHeaderIncludesInternal() const
diff --git a/app/commsdsl2emscripten/src/EmscriptenMessage.cpp b/app/commsdsl2emscripten/src/EmscriptenMessage.cpp
index 99295cd..bcc42b6 100644
--- a/app/commsdsl2emscripten/src/EmscriptenMessage.cpp
+++ b/app/commsdsl2emscripten/src/EmscriptenMessage.cpp
@@ -126,7 +126,12 @@ bool EmscriptenMessage::emscriptenWriteHeaderInternal() const
 
     stream << util::genProcessTemplate(Templ, repl, true);
     stream.flush();
-    return stream.good();
+    if (!stream.good()) {
+        logger.genError("Failed to write \"" + filePath + "\".");
+        return false;
+    }
+
+    return true;
 }
 
 bool EmscriptenMessage::emscriptenWriteSourceInternal() const
@@ -165,7 +170,12 @@ bool EmscriptenMessage::emscriptenWriteSourceInternal() const
 
     stream << util::genProcessTemplate(Templ, repl, true);
     stream.flush();
-    return stream.good();
+    if (!stream.good()) {
+        logger.genError("Failed to write \"" + filePath + "\".");
+        return false;
+    }
+
+    return true;
 }
 
 std::string EmscriptenMessage::emscriptenHeaderIncludesInternal() const
diff --git a/app/commsdsl2swig/src/SwigField.cpp b/app/commsdsl2swig/src/SwigField.cpp
index 50da816..68a6cd4 100644
--- a/app/commsdsl2swig/src/SwigField.cpp
+++ b/app/commsdsl2swig/src/SwigField.cpp
@@ -223,7 +223,12 @@ bool SwigField::swigWrite() const
 
     stream << util::genProcessTemplate(Templ, repl, true);
     stream.flush();
-    return stream.good();
+    if (!stream.good()) {
+        logger.genError("Failed to write \"" + filePath + "\".");
+        return false;
+    }
+
+    return true;
 }
 
 std::string SwigField::swigMembersDeclImpl() const
diff --git a/app/commsdsl2swig/src/SwigFrame.cpp b/app/commsdsl2swig/src/SwigFrame.cpp
index 7a36d92..8da8990 100644
--- a/app/commsdsl2swig/src/SwigFrame.cpp
+++ b/app/commsdsl2swig/src/SwigFrame.cpp
@@ -155,7 +155,12 @@ bool SwigFrame::genWriteImpl() const
 
     stream << util::genProcessTemplate(Templ, repl, true);
     stream.flush();
-    return stream.good();
+    if (!stream.good()) {
+        logger.genError("Failed to write \"" + filePath + "\".");
+        return false;
+    }
+
+    return true;
 }
 
 std::string SwigFrame::swigLayerDeclsInternal() const
diff --git a/app/commsdsl2swig/src/SwigInterface.cpp b/app/commsdsl2swig/src/SwigInterface.cpp
index 2ab2451..cf6751a 100644
--- a/app/commsdsl2swig/src/SwigInterface.cpp
+++ b/app/commsdsl2swig/src/SwigInterface.cpp
@@ -222,7 +222,12 @@ bool SwigInterface::genWriteImpl() const
 
     stream << util::genProcessTemplate(Templ, repl, true);
     stream.flush();
-    return stream.good();
+    if (!stream.good()) {
+        logger.genError("Failed to write \"" + filePath + "\".");
+        return false;
+    }
+
+    return true;
 }
 
 std::string SwigInterface::swigFieldDeclsInternal() const
diff --git a/app/commsdsl2swig/src/SwigMessage.cpp b/app/commsdsl2swig/src/SwigMessage.cpp
index 6e80416..e972a20 100644
--- a/app/commsdsl2swig/src/SwigMessage.cpp
+++ b/app/commsdsl2swig/src/SwigMessage.cpp
@@ -195,7 +195,12 @@ bool SwigMessage::genWriteImpl() const
 
     stream << util::genProcessTemplate(Templ, repl, true);
     stream.flush();
-    return stream.good();
+    if (!stream.good()) {
+        logger.genError("Failed to write \"" + filePath + "\".");
+        return false;
+    }
+
+    return true;
 }
 
 std::string SwigMessage::swigFieldDefsInternal() const
diff --git a/app/commsdsl2tools_qt/src/ToolsQtDefaultOptions.cpp b/app/commsdsl2tools_qt/src/ToolsQtDefaultOptions.cpp
index c68509b..1c03f75 100644
--- a/app/commsdsl2tools_qt/src/ToolsQtDefaultOptions.cpp
+++ b/app/commsdsl2tools_qt/src/ToolsQtDefaultOptions.cpp
@@ -205,7 +205,12 @@ bool ToolsQtDefaultOptions::toolsWriteInternal() const
 
     stream << util::genProcessTemplate(Templ, repl, true);
     stream.flush();
-    return stream.good();
+    if (!stream.good()) {
+        m_toolsGenerator.genLogger().genError("Failed to write \"" + filePath + "\".");
+        return false;
+    }
+
+    return true;
 }
 
 } // namespace commsdsl2tools_qt
\ No newline at end of file
diff --git a/app/commsdsl2tools_qt/src/ToolsQtInterface.cpp b/app/commsdsl2tools_qt/src/ToolsQtInterface.cpp
index 124885d..cc0e364 100644
--- a/app/commsdsl2tools_qt/src/ToolsQtInterface.cpp
+++ b/app/commsdsl2tools_qt/src/ToolsQtInterface.cpp
@@ -147,7 +147,12 @@ bool ToolsQtInterface::toolsWriteHeaderInternal() const
 
     stream << util::genProcessTemplate(Templ, repl, true);
     stream.flush();
-    return stream.good();
+    if (!stream.good()) {
+        logger.genError("Failed to write \"" + filePath + "\".");
+        return false;
+    }
+
+    return true;
 }
 
 bool ToolsQtInterface::toolsWriteSrcInternal() const
@@ -192,7 +197,12 @@ bool ToolsQtInterface::toolsWriteSrcInternal() const
 
     stream << util::genProcessTemplate(Templ, repl, true);
     stream.flush();
-    return stream.good();
+    if (!stream.good()) {
+        logger.genError("Failed to write \"" + filePath + "\".");
+        return false;
+    }
+
+    return true;
 }
 
 std::string ToolsQtInterface::toolsHeaderCodeInternal() const
diff --git a/app/commsdsl2tools_qt/src/ToolsQtPlugin.cpp b/app/commsdsl2tools_qt/src/ToolsQtPlugin.cpp
index 52bdda1..5b47acf 100644
--- a/app/commsdsl2tools_qt/src/ToolsQtPlugin.cpp
+++ b/app/commsdsl2tools_qt/src/ToolsQtPlugin.cpp
@@ -103,7 +103,12 @@ bool ToolsQtPlugin::toolsWriteProtocolHeaderInternal()
     if (hasReplace) {
         stream << replaceCode;
         stream.flush();
-        return stream.good();
+        if (!stream.good()) {
+            m_toolsGenerator.genLogger().genError("Failed to write \"" + filePath + "\".");
+            return false;
+        }
+
+        return true;
     }
 
     bool hasExtend = false;
@@ -180,7 +185,12 @@ bool ToolsQtPlugin::toolsWriteProtocolSrcInternal()
     if (hasReplace) {
         stream << replaceCode;
         stream.flush();
-        return stream.good();
+        if (!stream.good()) {
+            m_toolsGenerator.genLogger().genError("Failed to write \"" + filePath + "\".");
+            return false;
+        }
+
+        return true;
     }
 
     bool hasExtend = false;
@@ -267,7 +277,12 @@ bool ToolsQtPlugin::toolsWritePluginHeaderInternal()
     if (hasReplace) {
         stream << replaceCode;
         stream.flush();
-        return stream.good();
+        if (!stream.good()) {
+            m_toolsGenerator.genLogger().genError("Failed to write \"" + filePath + "\".");
+            return false;
+        }
+
+        return true;
     }
 
     bool hasExtend = false;
@@ -352,7 +367,12 @@ bool ToolsQtPlugin::toolsWritePluginSrcInternal()
     if (hasReplace) {
         stream << replaceCode;
         stream.flush();
-        return stream.good();
+        if (!stream.good()) {
+            m_toolsGenerator.genLogger().genError("Failed to write \"" + filePath + "\".");
+            return false;
+        }
+
+        return true;
     }
 
     bool hasExtend = false;
@@ -434,7 +454,12 @@ bool ToolsQtPlugin::toolsWritePluginJsonInternal()
     if (!replaceCode.empty()) {
         stream << replaceCode;
         stream.flush();
-        return stream.good();
+        if (!stream.good()) {
+            m_toolsGenerator.genLogger().genError("Failed to write \"" + filePath + "\".");
+            return false;
+        }
+
+        return true;
     }
 
     static const std::string Templ =
@@ -505,7 +530,12 @@ bool ToolsQtPlugin::toolsWritePluginConfigInternal()
     if (!replaceCode.empty()) {
         stream << replaceCode;
         stream.flush();
-        return stream.good();
+        if (!stream.good()) {
+            m_toolsGenerator.genLogger().genError("Failed to write \"" + filePath + "\".");
+            return false;
+        }
+
+        return true;
     }
 
     static const std::string Templ =
-- 
2.43.0


From f3d7feadebff659557d87534722455c1b3c81dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:59 +0000
Subject: [PATCH 05/30] fix: unreadable list of input files is an error

---
 lib/include/commsdsl/gen/GenProgramOptions.h |  3 ++-
 lib/src/gen/GenGenerator.cpp                 |  8 +++++++-
 lib/src/gen/GenProgramOptions.cpp            | 10 +++++++++-
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/lib/include/commsdsl/gen/GenProgramOptions.h b/lib/include/commsdsl/gen/GenProgramOptions.h
index 4e9e00f..d8fcd78 100644
--- a/lib/include/commsdsl/gen/GenProgramOptions.h
+++ b/lib/include/commsdsl/gen/GenProgramOptions.h
@@ -59,7 +59,8 @@ public:
     bool genDebugRequested() const;
     bool genWarnAsErrRequested() const;
     const std::string& genGetOutputDirectory() const;
-    GenStringsList genGetInputFiles() const;
+    GenStringsList genGetInputFiles(bool* listReadError = nullptr) const;
+    const std::string& genGetInputFilesList() const;
     const std::string& genGetCodeInputDirectory() const;
     bool genMultipleSchemasEnabled() const;
     bool genHasNamespaceOverride() const;
diff --git a/lib/src/gen/GenGenerator.cpp b/lib/src/gen/GenGenerator.cpp
index 80ebec3..7b5e532 100644
--- a/lib/src/gen/GenGenerator.cpp
+++ b/lib/src/gen/GenGenerator.cpp
@@ -715,7 +715,13 @@ int GenGenerator::genExec(const GenProgramOptions& options)
         return -1;
     }
 
-    auto files = options.genGetInputFiles();
+    bool filesListReadError = false;
+    auto files = options.genGetInputFiles(&filesListReadError);
+    if (filesListReadError) {
+        genLogger().genError("Failed to read list of input files \"" + options.genGetInputFilesList() + "\"");
+        return -1;
+    }
+
     if (files.empty()) {
         genLogger().genError("No input files are provided");
         return -1;
diff --git a/lib/src/gen/GenProgramOptions.cpp b/lib/src/gen/GenProgramOptions.cpp
index 4bd4376..81ebdb2 100644
--- a/lib/src/gen/GenProgramOptions.cpp
+++ b/lib/src/gen/GenProgramOptions.cpp
@@ -481,7 +481,7 @@ const std::string& GenProgramOptions::genGetOutputDirectory() const
     return genValue(GenOutputDirStr);
 }
 
-GenProgramOptions::GenStringsList GenProgramOptions::genGetInputFiles() const
+GenProgramOptions::GenStringsList GenProgramOptions::genGetInputFiles(bool* listReadError) const
 {
     std::vector<std::string> result;
     do {
@@ -492,6 +492,9 @@ GenProgramOptions::GenStringsList GenProgramOptions::genGetInputFiles() const
 
         std::ifstream stream(fileName);
         if (!stream) {
+            if (listReadError != nullptr) {
+                *listReadError = true;
+            }
             break;
         }
 
@@ -514,6 +517,11 @@ GenProgramOptions::GenStringsList GenProgramOptions::genGetInputFiles() const
     return result;
 }
 
+const std::string& GenProgramOptions::genGetInputFilesList() const
+{
+    return genValue(GenInputFilesListStr);
+}
+
 const std::string& GenProgramOptions::genGetCodeInputDirectory() const
 {
     return genValue(GenCodeInputDirStr);
-- 
2.43.0


From 83e0a5f9f98b72609d24ad0b2af9a73c3eb14a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:59 +0000
Subject: [PATCH 06/30] fix: report failure to update or copy custom source
 file

---
 lib/src/gen/GenGenerator.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/src/gen/GenGenerator.cpp b/lib/src/gen/GenGenerator.cpp
index 7b5e532..d12c16b 100644
--- a/lib/src/gen/GenGenerator.cpp
+++ b/lib/src/gen/GenGenerator.cpp
@@ -1702,7 +1702,7 @@ bool GenGenerator::genCopyExtraSourceFiles(const std::vector<std::string>& reser
         std::error_code ec;
         fs::copy_file(srcPath, destPath, fs::copy_options::overwrite_existing, ec);
         if (ec) {
-            genLogger().genError("Failed to copy with reason: " + ec.message());
+            genLogger().genError("Failed to copy \"" + srcPath.string() + "\" to \"" + destPath.string() + "\" with reason: " + ec.message());
             return false;
         }
 
@@ -1727,6 +1727,12 @@ bool GenGenerator::genCopyExtraSourceFiles(const std::vector<std::string>& reser
             }
 
             outStream << content;
+            outStream.flush();
+            if (!outStream.good()) {
+                genLogger().genError("Failed to modify " + destStr + ".");
+                return false;
+            }
+
             genLogger().genInfo("Updated " + destStr + " to have proper main namespace.");
         }
     }
-- 
2.43.0


From fb5ab4ea57e7eca2fa544694be8d03472116a047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:27 +0000
Subject: [PATCH 07/30] fix: unknown message in a list of messages is reported,
 no null pointer dereference

---
 lib/src/gen/GenGenerator.cpp | 4 ++--
 lib/src/gen/GenNamespace.cpp | 5 ++++-
 lib/src/gen/GenSchema.cpp    | 8 ++------
 3 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/lib/src/gen/GenGenerator.cpp b/lib/src/gen/GenGenerator.cpp
index d12c16b..c7f750c 100644
--- a/lib/src/gen/GenGenerator.cpp
+++ b/lib/src/gen/GenGenerator.cpp
@@ -892,7 +892,7 @@ GenField* GenGenerator::genFindField(const std::string& externalRef)
 {
     auto* field = m_impl->genFindField(externalRef);
     do {
-        if (field->genIsPrepared()) {
+        if ((field == nullptr) || (field->genIsPrepared())) {
             break;
         }
 
@@ -915,7 +915,7 @@ GenMessage* GenGenerator::genGindMessage(const std::string& externalRef)
 {
     auto* msg = m_impl->genGindMessage(externalRef);
     do {
-        if (msg->genIsPrepared()) {
+        if ((msg == nullptr) || (msg->genIsPrepared())) {
             break;
         }
 
diff --git a/lib/src/gen/GenNamespace.cpp b/lib/src/gen/GenNamespace.cpp
index 418654b..ed2c15d 100644
--- a/lib/src/gen/GenNamespace.cpp
+++ b/lib/src/gen/GenNamespace.cpp
@@ -717,7 +717,10 @@ const GenField* GenNamespace::genFindField(const std::string& externalRef) const
 
 const GenMessage* GenNamespace::genGindMessage(const std::string& externalRef) const
 {
-    assert(!externalRef.empty());
+    if (externalRef.empty()) {
+        return nullptr;
+    }
+
     auto pos = externalRef.find_first_of('.');
     std::string nsName;
     if (pos != std::string::npos) {
diff --git a/lib/src/gen/GenSchema.cpp b/lib/src/gen/GenSchema.cpp
index 2d2dd68..cb7a7cb 100644
--- a/lib/src/gen/GenSchema.cpp
+++ b/lib/src/gen/GenSchema.cpp
@@ -165,9 +165,7 @@ public:
                 });
 
         if ((nsIter == m_namespaces.end()) || ((*nsIter)->genName() != nsName)) {
-            m_generator.genLogger().genError("Internal error: unknown external reference: " + externalRef);
-            [[maybe_unused]] static constexpr bool Should_not_happen = false;
-            assert(Should_not_happen);
+            m_generator.genLogger().genError("Unknown external reference: " + externalRef);
             return nullptr;
         }
 
@@ -178,9 +176,7 @@ public:
         std::string remStr(externalRef, fromPos);
         auto result = (*nsIter)->genGindMessage(remStr);
         if (result == nullptr) {
-            m_generator.genLogger().genError("Internal error: unknown external reference: " + externalRef);
-            [[maybe_unused]] static constexpr bool Should_not_happen = false;
-            assert(Should_not_happen);
+            m_generator.genLogger().genError("Unknown external reference: " + externalRef);
         }
         return result;
     }
-- 
2.43.0


From af99df9673adacb518b8809950f985b43acc7fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:15 +0000
Subject: [PATCH 08/30] fix: XML errors are reported to the parser object that
 reads the file

---
 lib/src/parse/ParseProtocolImpl.cpp | 32 ++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/lib/src/parse/ParseProtocolImpl.cpp b/lib/src/parse/ParseProtocolImpl.cpp
index 05259e6..124e453 100644
--- a/lib/src/parse/ParseProtocolImpl.cpp
+++ b/lib/src/parse/ParseProtocolImpl.cpp
@@ -33,6 +33,36 @@ namespace commsdsl
 namespace parse
 {
 
+namespace
+{
+
+// Sets the error reporting function of libxml2, which is shared by all the parsers
+// of the thread, and restores the previous one at the end of the scope.
+class ParseXmlErrorFuncGuard
+{
+public:
+    ParseXmlErrorFuncGuard(void* ctx, xmlStructuredErrorFunc func) :
+        m_prevCtx(xmlStructuredErrorContext),
+        m_prevFunc(xmlStructuredError)
+    {
+        xmlSetStructuredErrorFunc(ctx, func);
+    }
+
+    ~ParseXmlErrorFuncGuard()
+    {
+        xmlSetStructuredErrorFunc(m_prevCtx, m_prevFunc);
+    }
+
+    ParseXmlErrorFuncGuard(const ParseXmlErrorFuncGuard&) = delete;
+    ParseXmlErrorFuncGuard& operator=(const ParseXmlErrorFuncGuard&) = delete;
+
+private:
+    void* m_prevCtx = nullptr;
+    xmlStructuredErrorFunc m_prevFunc = nullptr;
+};
+
+} // namespace
+
 ParseProtocolImpl::ParseProtocolImpl() :
     m_logger(
         [this](ParseErrorLevel level, const std::string& msg)
@@ -56,7 +86,6 @@ ParseProtocolImpl::ParseProtocolImpl() :
         }
     )
 {
-    xmlSetStructuredErrorFunc(this, static_cast<xmlStructuredErrorFunc>(&ParseProtocolImpl::parseCbXmlErrorFunc));
     m_logger.parseSetMinLevel(m_minLevel);
 }
 
@@ -67,6 +96,7 @@ bool ParseProtocolImpl::parse(const std::string& input)
         return false;
     }
 
+    ParseXmlErrorFuncGuard errorFuncGuard(this, static_cast<xmlStructuredErrorFunc>(&ParseProtocolImpl::parseCbXmlErrorFunc));
     ParseXmlDocPtr doc(xmlParseFile(input.c_str()));
     if (!doc) {
         std::cerr << "ERROR: Failed to parse" << input << std::endl;
-- 
2.43.0


From 9c022caada92764a4fb90dba28558464e65cee27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:15 +0000
Subject: [PATCH 09/30] fix: failure to parse is reported via the error
 callback

---
 lib/src/parse/ParseProtocolImpl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/parse/ParseProtocolImpl.cpp b/lib/src/parse/ParseProtocolImpl.cpp
index 124e453..7758ec3 100644
--- a/lib/src/parse/ParseProtocolImpl.cpp
+++ b/lib/src/parse/ParseProtocolImpl.cpp
@@ -99,7 +99,7 @@ bool ParseProtocolImpl::parse(const std::string& input)
     ParseXmlErrorFuncGuard errorFuncGuard(this, static_cast<xmlStructuredErrorFunc>(&ParseProtocolImpl::parseCbXmlErrorFunc));
     ParseXmlDocPtr doc(xmlParseFile(input.c_str()));
     if (!doc) {
-        std::cerr << "ERROR: Failed to parse" << input << std::endl;
+        parseLogError() << "Failed to parse \"" << input << "\"";
         return false;
     }
 
-- 
2.43.0


From 377e5d4fee30536e0b737d1fea9d4d4e98886034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:48 +0000
Subject: [PATCH 10/30] fix: schema file read only in part because of lack of
 memory is an error

---
 lib/src/parse/ParseProtocolImpl.cpp | 8 +++++++-
 lib/src/parse/ParseProtocolImpl.h   | 1 +
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/src/parse/ParseProtocolImpl.cpp b/lib/src/parse/ParseProtocolImpl.cpp
index 7758ec3..de0795b 100644
--- a/lib/src/parse/ParseProtocolImpl.cpp
+++ b/lib/src/parse/ParseProtocolImpl.cpp
@@ -97,8 +97,10 @@ bool ParseProtocolImpl::parse(const std::string& input)
     }
 
     ParseXmlErrorFuncGuard errorFuncGuard(this, static_cast<xmlStructuredErrorFunc>(&ParseProtocolImpl::parseCbXmlErrorFunc));
+    m_xmlOutOfMemory = false;
     ParseXmlDocPtr doc(xmlParseFile(input.c_str()));
-    if (!doc) {
+    // When libxml2 runs out of memory it can still return the part of the document it managed to read
+    if ((!doc) || m_xmlOutOfMemory) {
         parseLogError() << "Failed to parse \"" << input << "\"";
         return false;
     }
@@ -558,6 +560,10 @@ void ParseProtocolImpl::parseHandleXmlError(const xmlError* err)
     static_assert(XML_ERR_NONE == 0, "Invalid assumption");
     static_assert(XML_ERR_FATAL == 3, "Invalid assumption");
 
+    if (err->code == XML_ERR_NO_MEMORY) {
+        m_xmlOutOfMemory = true;
+    }
+
     ParseErrorLevel level = ParseErrorLevel_Error;
     if ((XML_ERR_NONE <= err->level) && (err->level <= XML_ERR_FATAL)) {
         level = Map[err->level];
diff --git a/lib/src/parse/ParseProtocolImpl.h b/lib/src/parse/ParseProtocolImpl.h
index 960c754..58fc8d1 100644
--- a/lib/src/parse/ParseProtocolImpl.h
+++ b/lib/src/parse/ParseProtocolImpl.h
@@ -177,6 +177,7 @@ private:
     ParseSchemaImpl* m_currSchema = nullptr;
     ParseExtraPrefixes m_extraPrefixes;
     bool m_validated = false;
+    bool m_xmlOutOfMemory = false;
     bool m_multipleSchemasEnabled = false;
 };
 
-- 
2.43.0


From a4284e0330f38577be708a19643e59b44c02d84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:08 +0000
Subject: [PATCH 11/30] fix: only the protocol namespace is replaced in custom
 source files and their paths

---
 lib/src/gen/GenGenerator.cpp | 37 ++++++++++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/lib/src/gen/GenGenerator.cpp b/lib/src/gen/GenGenerator.cpp
index c7f750c..4b4e057 100644
--- a/lib/src/gen/GenGenerator.cpp
+++ b/lib/src/gen/GenGenerator.cpp
@@ -44,6 +44,7 @@
 
 #include <cassert>
 #include <algorithm>
+#include <cctype>
 #include <filesystem>
 #include <fstream>
 #include <iostream>
@@ -58,6 +59,36 @@ namespace commsdsl
 namespace gen
 {
 
+namespace
+{
+
+// Replaces the namespace name only when it is a whole word
+std::string genReplaceNamespaceInternal(const std::string& content, const std::string& from, const std::string& to)
+{
+    auto what = "namespace " + from;
+    std::string result;
+    std::size_t pos = 0U;
+    while (true) {
+        auto nextPos = content.find(what, pos);
+        if (nextPos == std::string::npos) {
+            break;
+        }
+
+        auto endPos = nextPos + what.size();
+        result.append(content, pos, nextPos - pos);
+        bool wholeWord =
+            (endPos == content.size()) ||
+            ((std::isalnum(static_cast<unsigned char>(content[endPos])) == 0) && (content[endPos] != '_'));
+        result.append(wholeWord ? ("namespace " + to) : what);
+        pos = endPos;
+    }
+
+    result.append(content, pos, std::string::npos);
+    return result;
+}
+
+} // namespace
+
 class GenGeneratorImpl
 {
 public:
@@ -1684,7 +1715,9 @@ bool GenGenerator::genCopyExtraSourceFiles(const std::vector<std::string>& reser
             }
 
             auto srcPrefix = (fs::path(strings::genIncludeDirStr()) / schemaNs).string();
-            if (!util::genStrStartsWith(relPath, srcPrefix)) {
+            if ((!util::genStrStartsWith(relPath, srcPrefix)) ||
+                (relPath.size() <= srcPrefix.size()) ||
+                (relPath[srcPrefix.size()] != fs::path::preferred_separator)) {
                 break;
             }
 
@@ -1719,7 +1752,7 @@ bool GenGenerator::genCopyExtraSourceFiles(const std::vector<std::string>& reser
             std::string content((std::istreambuf_iterator<char>(stream)), std::istreambuf_iterator<char>());
             stream.close();
 
-            content = util::genStrReplace(content, "namespace " + schemaNs, "namespace " + protSchema.genMainNamespace());
+            content = genReplaceNamespaceInternal(content, schemaNs, protSchema.genMainNamespace());
             std::ofstream outStream(destStr, std::ios_base::trunc);
             if (!outStream) {
                 genLogger().genError("Failed to modify " + destStr + ".");
-- 
2.43.0


From e7ff17dd9ce19882cc74890d93214c066779b582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:08 +0000
Subject: [PATCH 12/30] fix: read-only custom source files can be copied again
 and modified

---
 lib/src/gen/GenGenerator.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/src/gen/GenGenerator.cpp b/lib/src/gen/GenGenerator.cpp
index 4b4e057..6965a4e 100644
--- a/lib/src/gen/GenGenerator.cpp
+++ b/lib/src/gen/GenGenerator.cpp
@@ -1733,6 +1733,10 @@ bool GenGenerator::genCopyExtraSourceFiles(const std::vector<std::string>& reser
         }
 
         std::error_code ec;
+        // Allow replacing of the read-only file copied by the previous run
+        fs::permissions(destPath, fs::perms::owner_write, fs::perm_options::add, ec);
+        ec.clear();
+
         fs::copy_file(srcPath, destPath, fs::copy_options::overwrite_existing, ec);
         if (ec) {
             genLogger().genError("Failed to copy \"" + srcPath.string() + "\" to \"" + destPath.string() + "\" with reason: " + ec.message());
@@ -1742,6 +1746,9 @@ bool GenGenerator::genCopyExtraSourceFiles(const std::vector<std::string>& reser
         if (protSchema.genMainNamespace() != schemaNs) {
             // The namespace has changed
 
+            // The copied file can be read-only
+            fs::permissions(destPath, fs::perms::owner_write, fs::perm_options::add, ec);
+
             auto destStr = destPath.string();
             std::ifstream stream(destStr);
             if (!stream) {
-- 
2.43.0


From 9b5b5fcf2b75750dbdc27c086aff44a9ad6ab4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:37 +0000
Subject: [PATCH 13/30] fix: empty command line argument is handled

---
 lib/src/gen/GenProgramOptions.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/lib/src/gen/GenProgramOptions.cpp b/lib/src/gen/GenProgramOptions.cpp
index 81ebdb2..ddf1d71 100644
--- a/lib/src/gen/GenProgramOptions.cpp
+++ b/lib/src/gen/GenProgramOptions.cpp
@@ -100,11 +100,6 @@ public:
             const char* nextToken = argv[idx];
             assert(nextToken != nullptr);
             std::string nextStr(nextToken);
-            if (nextStr.empty()) {
-                assert(false); // Should not happen
-                continue;
-            }
-
             if (opt != nullptr) {
                 assert(opt->m_hasParam);
                 opt->m_value = std::move(nextStr);
@@ -112,6 +107,10 @@ public:
                 continue;
             }
 
+            if (nextStr.empty()) {
+                continue;
+            }
+
             if (nextStr[0] != '-') {
                 m_args.push_back(nextStr);
                 continue;
-- 
2.43.0


From b2e309c8d8ff62a79b3ffd2571e0549f5c2dc350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:37 +0000
Subject: [PATCH 14/30] fix: message properties shared between parsers are
 initialised only once

---
 lib/src/parse/ParseMessageImpl.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/lib/src/parse/ParseMessageImpl.cpp b/lib/src/parse/ParseMessageImpl.cpp
index cf7cf0f..87545dd 100644
--- a/lib/src/parse/ParseMessageImpl.cpp
+++ b/lib/src/parse/ParseMessageImpl.cpp
@@ -390,12 +390,14 @@ const ParseXmlWrap::ParseNamesList& ParseMessageImpl::parseExtraProps()
 
 const ParseXmlWrap::ParseNamesList& ParseMessageImpl::parseAllProps()
 {
-    static ParseXmlWrap::ParseNamesList Names;
-    if (Names.empty()) {
-        Names = parseCommonProps();
-        auto& extras = parseExtraProps();
-        Names.insert(Names.end(), extras.begin(), extras.end());
-    }
+    static const ParseXmlWrap::ParseNamesList Names =
+        []()
+        {
+            auto names = parseCommonProps();
+            auto& extras = parseExtraProps();
+            names.insert(names.end(), extras.begin(), extras.end());
+            return names;
+        }();
 
     return Names;
 }
-- 
2.43.0


From 17dc92cd0f8263a523375e2b59242a79f4107712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:49 +0000
Subject: [PATCH 15/30] fix: copied custom source files stay writable, partial
 copies are reported

---
 lib/src/gen/GenGenerator.cpp | 60 ++++++++++++++++--------------------
 1 file changed, 27 insertions(+), 33 deletions(-)

diff --git a/lib/src/gen/GenGenerator.cpp b/lib/src/gen/GenGenerator.cpp
index 6965a4e..55fb807 100644
--- a/lib/src/gen/GenGenerator.cpp
+++ b/lib/src/gen/GenGenerator.cpp
@@ -1732,48 +1732,42 @@ bool GenGenerator::genCopyExtraSourceFiles(const std::vector<std::string>& reser
             return false;
         }
 
-        std::error_code ec;
-        // Allow replacing of the read-only file copied by the previous run
-        fs::permissions(destPath, fs::perms::owner_write, fs::perm_options::add, ec);
-        ec.clear();
-
-        fs::copy_file(srcPath, destPath, fs::copy_options::overwrite_existing, ec);
-        if (ec) {
-            genLogger().genError("Failed to copy \"" + srcPath.string() + "\" to \"" + destPath.string() + "\" with reason: " + ec.message());
+        std::ifstream stream(srcPath, std::ios_base::binary);
+        if (!stream) {
+            genLogger().genError("Failed to open \"" + srcPath.string() + "\" for reading.");
             return false;
         }
 
+        std::string content((std::istreambuf_iterator<char>(stream)), std::istreambuf_iterator<char>());
+        stream.close();
+
         if (protSchema.genMainNamespace() != schemaNs) {
             // The namespace has changed
+            content = genReplaceNamespaceInternal(content, schemaNs, protSchema.genMainNamespace());
+            genLogger().genInfo("Updating " + destPath.string() + " to have proper main namespace.");
+        }
 
-            // The copied file can be read-only
-            fs::permissions(destPath, fs::perms::owner_write, fs::perm_options::add, ec);
-
-            auto destStr = destPath.string();
-            std::ifstream stream(destStr);
-            if (!stream) {
-                genLogger().genError("Failed to open " + destStr + " for modification.");
-                return false;
-            }
-
-            std::string content((std::istreambuf_iterator<char>(stream)), std::istreambuf_iterator<char>());
-            stream.close();
+        // The file to overwrite can be read-only
+        std::error_code ec;
+        fs::permissions(destPath, fs::perms::owner_write, fs::perm_options::add, ec);
 
-            content = genReplaceNamespaceInternal(content, schemaNs, protSchema.genMainNamespace());
-            std::ofstream outStream(destStr, std::ios_base::trunc);
-            if (!outStream) {
-                genLogger().genError("Failed to modify " + destStr + ".");
-                return false;
-            }
+        std::ofstream outStream(destPath, std::ios_base::binary | std::ios_base::trunc);
+        outStream << content;
+        outStream.flush();
+        if (!outStream.good()) {
+            genLogger().genError("Failed to write \"" + destPath.string() + "\".");
+            return false;
+        }
 
-            outStream << content;
-            outStream.flush();
-            if (!outStream.good()) {
-                genLogger().genError("Failed to modify " + destStr + ".");
-                return false;
-            }
+        // Keep the permissions, but allow overwriting by the next run even when the original is read-only.
+        auto perms = fs::status(srcPath, ec).permissions();
+        if (!ec) {
+            fs::permissions(destPath, perms | fs::perms::owner_write, ec);
+        }
 
-            genLogger().genInfo("Updated " + destStr + " to have proper main namespace.");
+        if (ec) {
+            genLogger().genError("Failed to set permissions of \"" + destPath.string() + "\" with reason: " + ec.message());
+            return false;
         }
     }
     return true;
-- 
2.43.0


From 949993f51c95040f9207432c2273128b59b1c902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:49 +0000
Subject: [PATCH 16/30] fix: names given on the command line cannot redirect
 the output elsewhere

---
 app/commsdsl2c/src/CGenerator.cpp           |  6 ++++++
 app/commsdsl2comms/src/CommsGenerator.cpp   |  5 +++++
 app/commsdsl2tools_qt/src/ToolsQtPlugin.cpp |  5 +++++
 lib/include/commsdsl/gen/util.h             |  1 +
 lib/src/gen/GenGenerator.cpp                |  7 +++++++
 lib/src/gen/util.cpp                        | 15 +++++++++++++++
 6 files changed, 39 insertions(+)

diff --git a/app/commsdsl2c/src/CGenerator.cpp b/app/commsdsl2c/src/CGenerator.cpp
index f1c1563..bdfef1f 100644
--- a/app/commsdsl2c/src/CGenerator.cpp
+++ b/app/commsdsl2c/src/CGenerator.cpp
@@ -523,6 +523,12 @@ bool CGenerator::cPrepareNamesPrefixInternal()
     if (m_namesPrefix.empty()) {
         m_namesPrefix = genProtocolSchema().genMainNamespace();
     }
+
+    if (!util::genIsValidName(m_namesPrefix)) {
+        genLogger().genError("Invalid names prefix: \"" + m_namesPrefix + "\"");
+        return false;
+    }
+
     return true;
 }
 
diff --git a/app/commsdsl2comms/src/CommsGenerator.cpp b/app/commsdsl2comms/src/CommsGenerator.cpp
index b913926..ac8f4e0 100644
--- a/app/commsdsl2comms/src/CommsGenerator.cpp
+++ b/app/commsdsl2comms/src/CommsGenerator.cpp
@@ -326,6 +326,11 @@ bool CommsGenerator::commsPrepareExtraMessageBundlesInternal()
             return false;
         }
 
+        if (fs::path(name).filename() != fs::path(name)) {
+            genLogger().genError("Invalid bundle name \"" + name + "\"");
+            return false;
+        }
+
         std::ifstream stream(path);
         if (!stream) {
             genLogger().genError("Failed to read extra messages bundle file " + path);
diff --git a/app/commsdsl2tools_qt/src/ToolsQtPlugin.cpp b/app/commsdsl2tools_qt/src/ToolsQtPlugin.cpp
index 5b47acf..0a30dcd 100644
--- a/app/commsdsl2tools_qt/src/ToolsQtPlugin.cpp
+++ b/app/commsdsl2tools_qt/src/ToolsQtPlugin.cpp
@@ -54,6 +54,11 @@ bool ToolsQtPlugin::toolsPrepare()
         return false;
     }
 
+    if (toolsProtocolName().find_first_of("/\\") != std::string::npos) {
+        m_toolsGenerator.genLogger().genError("Invalid name of the protocol plugin: \"" + toolsAdjustedNameInternal() + "\".");
+        return false;
+    }
+
     return true;
 }
 
diff --git a/lib/include/commsdsl/gen/util.h b/lib/include/commsdsl/gen/util.h
index b7607c4..ff418c6 100644
--- a/lib/include/commsdsl/gen/util.h
+++ b/lib/include/commsdsl/gen/util.h
@@ -33,6 +33,7 @@ namespace util
 
 std::string genStrReplace(const std::string& str, const std::string& what, const std::string& with);
 std::string genStrToName(const std::string& value);
+bool genIsValidName(const std::string& value);
 std::vector<std::string> genStrSplitByAnyChar(const std::string& str, const std::string& splitChars, bool compressed = true);
 std::vector<std::string> genStrSplit(const std::string& str, const std::string& sep, bool compressed = true);
 std::string genStrInsertIndent(const std::string& str);
diff --git a/lib/src/gen/GenGenerator.cpp b/lib/src/gen/GenGenerator.cpp
index 55fb807..46d5383 100644
--- a/lib/src/gen/GenGenerator.cpp
+++ b/lib/src/gen/GenGenerator.cpp
@@ -448,6 +448,13 @@ public:
             return false;
         }
 
+        for (auto& n : m_namespaceOverrides) {
+            if (!util::genIsValidName(n.second)) {
+                m_logger->genError("Invalid name of the namespace: \"" + n.second + "\"");
+                return false;
+            }
+        }
+
         for (auto& s : allSchemas) {
             auto schema = m_generator.genCreateSchema(s);
             schema->genSetVersionIndependentCodeForced(m_versionIndependentCodeForced);
diff --git a/lib/src/gen/util.cpp b/lib/src/gen/util.cpp
index f4227df..b08072a 100644
--- a/lib/src/gen/util.cpp
+++ b/lib/src/gen/util.cpp
@@ -217,6 +217,21 @@ std::string genStrToName(const std::string& value)
     return result;
 }
 
+bool genIsValidName(const std::string& value)
+{
+    if (value.empty() || (std::isdigit(static_cast<unsigned char>(value[0])) != 0)) {
+        return false;
+    }
+
+    return
+        std::all_of(
+            value.begin(), value.end(),
+            [](unsigned char ch)
+            {
+                return (std::isalnum(ch) != 0) || (ch == '_');
+            });
+}
+
 std::vector<std::string> genStrSplitByAnyChar(
     const std::string& str,
     const std::string& splitChars,
-- 
2.43.0


From dd36760f85947b355faf8c5a0197a45f0bc55826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:49 +0000
Subject: [PATCH 17/30] fix: reference to unknown message, field, frame or
 interface is reported

---
 lib/src/gen/GenNamespace.cpp        |  5 ++++-
 lib/src/gen/GenSchema.cpp           | 16 +++++-----------
 lib/src/parse/ParseProtocolImpl.cpp | 15 ++++++++++++---
 3 files changed, 21 insertions(+), 15 deletions(-)

diff --git a/lib/src/gen/GenNamespace.cpp b/lib/src/gen/GenNamespace.cpp
index ed2c15d..25b629e 100644
--- a/lib/src/gen/GenNamespace.cpp
+++ b/lib/src/gen/GenNamespace.cpp
@@ -767,7 +767,10 @@ const GenMessage* GenNamespace::genGindMessage(const std::string& externalRef) c
 
 const GenFrame* GenNamespace::genFindFrame(const std::string& externalRef) const
 {
-    assert(!externalRef.empty());
+    if (externalRef.empty()) {
+        return nullptr;
+    }
+
     auto pos = externalRef.find_first_of('.');
     std::string nsName;
     if (pos != std::string::npos) {
diff --git a/lib/src/gen/GenSchema.cpp b/lib/src/gen/GenSchema.cpp
index cb7a7cb..2788f91 100644
--- a/lib/src/gen/GenSchema.cpp
+++ b/lib/src/gen/GenSchema.cpp
@@ -204,9 +204,7 @@ public:
                 });
 
         if ((nsIter == m_namespaces.end()) || ((*nsIter)->genName() != nsName)) {
-            m_generator.genLogger().genError("Internal error: unknown external reference: " + externalRef);
-            [[maybe_unused]] static constexpr bool Should_not_happen = false;
-            assert(Should_not_happen);
+            m_generator.genLogger().genError("Unknown external reference: " + externalRef);
             return nullptr;
         }
 
@@ -217,9 +215,7 @@ public:
         std::string remStr(externalRef, fromPos);
         auto result = (*nsIter)->genFindFrame(remStr);
         if (result == nullptr) {
-            m_generator.genLogger().genError("Internal error: unknown external reference: " + externalRef);
-            [[maybe_unused]] static constexpr bool Should_not_happen = false;
-            assert(Should_not_happen);
+            m_generator.genLogger().genError("Unknown external reference: " + externalRef);
         }
         return result;
     }
@@ -251,9 +247,7 @@ public:
         std::string remStr(externalRef, fromPos);
         auto result = (*nsIter)->genFindInterface(remStr);
         if (result == nullptr) {
-            m_generator.genLogger().genError("Internal error: unknown external reference: " + externalRef);
-            [[maybe_unused]] static constexpr bool Should_not_happen = false;
-            assert(Should_not_happen);
+            m_generator.genLogger().genError("Unknown external reference: " + externalRef);
         }
         return result;
     }
@@ -564,7 +558,7 @@ GenField* GenSchema::genFindField(const std::string& externalRef)
 {
     auto* field = m_impl->genFindField(externalRef);
     do {
-        if (field->genIsPrepared()) {
+        if ((field == nullptr) || (field->genIsPrepared())) {
             break;
         }
 
@@ -587,7 +581,7 @@ GenMessage* GenSchema::genGindMessage(const std::string& externalRef)
 {
     auto* msg = m_impl->genGindMessage(externalRef);
     do {
-        if (msg->genIsPrepared()) {
+        if ((msg == nullptr) || (msg->genIsPrepared())) {
             break;
         }
 
diff --git a/lib/src/parse/ParseProtocolImpl.cpp b/lib/src/parse/ParseProtocolImpl.cpp
index de0795b..cfdab49 100644
--- a/lib/src/parse/ParseProtocolImpl.cpp
+++ b/lib/src/parse/ParseProtocolImpl.cpp
@@ -158,7 +158,10 @@ const ParseSchemaImpl& ParseProtocolImpl::parseCurrSchema() const
 
 const ParseFieldImpl* ParseProtocolImpl::parseFindField(const std::string& ref, bool checkRef) const
 {
-    assert(!ref.empty());
+    if (ref.empty()) {
+        return nullptr;
+    }
+
     auto parsedRef = parseExternalRef(ref);
     if ((parsedRef.first == nullptr) || (parsedRef.second.empty())) {
         return nullptr;
@@ -173,7 +176,10 @@ const ParseFieldImpl* ParseProtocolImpl::parseFindField(const std::string& ref,
 
 const ParseMessageImpl* ParseProtocolImpl::parseFindMessage(const std::string& ref, bool checkRef) const
 {
-    assert(!ref.empty());
+    if (ref.empty()) {
+        return nullptr;
+    }
+
     auto parsedRef = parseExternalRef(ref);
     if ((parsedRef.first == nullptr) || (parsedRef.second.empty())) {
         return nullptr;
@@ -188,7 +194,10 @@ const ParseMessageImpl* ParseProtocolImpl::parseFindMessage(const std::string& r
 
 const ParseInterfaceImpl* ParseProtocolImpl::parseFindInterface(const std::string& ref, bool checkRef) const
 {
-    assert(!ref.empty());
+    if (ref.empty()) {
+        return nullptr;
+    }
+
     auto parsedRef = parseExternalRef(ref);
     if ((parsedRef.first == nullptr) || (parsedRef.second.empty())) {
         return nullptr;
-- 
2.43.0


From 9aa7cf1357b484a2683e7ccca68cede3101ff2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:49 +0000
Subject: [PATCH 18/30] fix: schemas without frames

---
 app/commsdsl2c/src/CDoxygen.cpp                | 4 ++++
 app/commsdsl2comms/src/CommsDoxygen.cpp        | 4 +++-
 app/commsdsl2test/src/TestCmake.cpp            | 6 +++++-
 app/commsdsl2tools_qt/src/ToolsQtGenerator.cpp | 6 +++++-
 4 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/app/commsdsl2c/src/CDoxygen.cpp b/app/commsdsl2c/src/CDoxygen.cpp
index cbe5100..1dd4a23 100644
--- a/app/commsdsl2c/src/CDoxygen.cpp
+++ b/app/commsdsl2c/src/CDoxygen.cpp
@@ -375,6 +375,10 @@ bool CDoxygen::cWriteMainpageInternal() const
 
 std::string CDoxygen::cInputDocInternal() const
 {
+    if (m_frames.empty()) {
+        return strings::genEmptyString();
+    }
+
     util::GenStringsList frameItems;
     for (auto* f : m_frames) {
         static const std::string Templ =
diff --git a/app/commsdsl2comms/src/CommsDoxygen.cpp b/app/commsdsl2comms/src/CommsDoxygen.cpp
index cbfd133..c881dd9 100644
--- a/app/commsdsl2comms/src/CommsDoxygen.cpp
+++ b/app/commsdsl2comms/src/CommsDoxygen.cpp
@@ -567,7 +567,9 @@ std::string CommsDoxygen::commsFrameDocInternal() const
         "///";
 
     auto frames = m_commsGenerator.genGetAllFrames();
-    assert(!frames.empty());
+    if (frames.empty()) {
+        return strings::genEmptyString();
+    }
 
     util::GenStringsList list;
     for (auto* f : frames) {
diff --git a/app/commsdsl2test/src/TestCmake.cpp b/app/commsdsl2test/src/TestCmake.cpp
index aad8b21..ed3f57d 100644
--- a/app/commsdsl2test/src/TestCmake.cpp
+++ b/app/commsdsl2test/src/TestCmake.cpp
@@ -56,7 +56,11 @@ bool TestCmake::testWriteInternal() const
     auto interfaceScope = commsdsl::gen::comms::genScopeFor(*firstInterface, m_testGenerator);
 
     auto allFrames = m_testGenerator.genGetAllFrames();
-    assert(!allFrames.empty());
+    if (allFrames.empty()) {
+        m_testGenerator.genLogger().genError("The protocol doesn't define any frame.");
+        return false;
+    }
+
     auto* firstFrame = allFrames.front();
     assert(!firstFrame->genName().empty());
 
diff --git a/app/commsdsl2tools_qt/src/ToolsQtGenerator.cpp b/app/commsdsl2tools_qt/src/ToolsQtGenerator.cpp
index 3758be8..7b23e73 100644
--- a/app/commsdsl2tools_qt/src/ToolsQtGenerator.cpp
+++ b/app/commsdsl2tools_qt/src/ToolsQtGenerator.cpp
@@ -221,7 +221,11 @@ bool ToolsQtGenerator::genPrepareImpl()
 
         if (info.m_frame.empty()) {
             auto allFrames = genGetAllFrames();
-            assert(!allFrames.empty());
+            if (allFrames.empty()) {
+                genLogger().genError("The protocol doesn't define any frame.");
+                return false;
+            }
+
             info.m_frame = allFrames.front()->genParseObj().parseExternalRef();
         }
 
-- 
2.43.0


From 96bf0142d3612cf3fd5dfb1b41c4d489dedce813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:49 +0000
Subject: [PATCH 19/30] fix: swig and emscripten output for frames and messages
 without suitable interface

---
 app/commsdsl2emscripten/src/EmscriptenFrame.cpp |  7 +++++++
 app/commsdsl2swig/src/SwigFrame.cpp             |  8 ++++++++
 app/commsdsl2swig/src/SwigMessage.cpp           | 14 +++++++++++---
 3 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/app/commsdsl2emscripten/src/EmscriptenFrame.cpp b/app/commsdsl2emscripten/src/EmscriptenFrame.cpp
index 2c9ac41..e4c4fe5 100644
--- a/app/commsdsl2emscripten/src/EmscriptenFrame.cpp
+++ b/app/commsdsl2emscripten/src/EmscriptenFrame.cpp
@@ -100,6 +100,7 @@ bool EmscriptenFrame::genPrepareImpl()
         m_emscriptenLayers.push_back(const_cast<EmscriptenLayer*>(emscriptenLayer));
     }
 
+    m_validFrame = false;
     auto* iFace = emscriptenInterfaceInternal();
     do {
         if (iFace == nullptr) {
@@ -107,6 +108,12 @@ bool EmscriptenFrame::genPrepareImpl()
             break;
         }
 
+        if ((emscriptenFindInputNamespace() == nullptr) &&
+            (!EmscriptenNamespace::emscriptenCast(iFace->genParentNamespace())->emscriptenHasInput())) {
+            genGenerator().genLogger().genDebug("No input messages for frame " + genName());
+            break;
+        }
+
         m_validFrame =
             std::all_of(
                 m_emscriptenLayers.begin(), m_emscriptenLayers.end(),
diff --git a/app/commsdsl2swig/src/SwigFrame.cpp b/app/commsdsl2swig/src/SwigFrame.cpp
index 8da8990..8e09f7f 100644
--- a/app/commsdsl2swig/src/SwigFrame.cpp
+++ b/app/commsdsl2swig/src/SwigFrame.cpp
@@ -101,6 +101,14 @@ bool SwigFrame::genPrepareImpl()
         m_swigLayers.push_back(const_cast<SwigLayer*>(swigLayer));
     }
 
+    if ((swigInterfaceInternal() == nullptr) ||
+        (swigMsgHandlerInternal() == nullptr) ||
+        (swigInputInternal() == nullptr)) {
+        genGenerator().genLogger().genDebug("No valid interface or input messages for frame " + genName());
+        m_validFrame = false;
+        return true;
+    }
+
     m_validFrame =
         std::all_of(
             m_swigLayers.begin(), m_swigLayers.end(),
diff --git a/app/commsdsl2swig/src/SwigMessage.cpp b/app/commsdsl2swig/src/SwigMessage.cpp
index e972a20..e0b0951 100644
--- a/app/commsdsl2swig/src/SwigMessage.cpp
+++ b/app/commsdsl2swig/src/SwigMessage.cpp
@@ -46,7 +46,8 @@ SwigMessage::~SwigMessage() = default;
 
 void SwigMessage::swigAddCodeIncludes(GenStringsList& list) const
 {
-    if (!genIsReferenced()) {
+    if ((!genIsReferenced()) ||
+        (swigGetInterfaceInternal() == nullptr)) {
         return;
     }
 
@@ -55,7 +56,8 @@ void SwigMessage::swigAddCodeIncludes(GenStringsList& list) const
 
 void SwigMessage::swigAddCode(GenStringsList& list) const
 {
-    if (!genIsReferenced()) {
+    if ((!genIsReferenced()) ||
+        (swigGetInterfaceInternal() == nullptr)) {
         return;
     }
 
@@ -131,7 +133,8 @@ void SwigMessage::swigAddCode(GenStringsList& list) const
 
 void SwigMessage::swigAddDef(GenStringsList& list) const
 {
-    if (!genIsReferenced()) {
+    if ((!genIsReferenced()) ||
+        (swigGetInterfaceInternal() == nullptr)) {
         return;
     }
 
@@ -164,6 +167,11 @@ bool SwigMessage::genPrepareImpl()
 bool SwigMessage::genWriteImpl() const
 {
     assert(genIsReferenced());
+    if (swigGetInterfaceInternal() == nullptr) {
+        genGenerator().genLogger().genDebug("No valid interface for message " + genName());
+        return true;
+    }
+
     auto filePath = comms::genHeaderPathFor(*this, genGenerator());
     auto dirPath = util::genPathUp(filePath);
     assert(!dirPath.empty());
-- 
2.43.0


From cfcacf7d96b808fa13169581f48ad516f2b8f350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:49 +0000
Subject: [PATCH 20/30] fix: checksum layer with "from" must follow the payload

---
 lib/src/parse/ParseChecksumLayerImpl.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/lib/src/parse/ParseChecksumLayerImpl.cpp b/lib/src/parse/ParseChecksumLayerImpl.cpp
index 3c936f6..56eccc8 100644
--- a/lib/src/parse/ParseChecksumLayerImpl.cpp
+++ b/lib/src/parse/ParseChecksumLayerImpl.cpp
@@ -76,6 +76,13 @@ bool ParseChecksumLayerImpl::parseVerifyImpl(const ParseLayerImpl::ParseLayersLi
         return false;
     }
 
+    if ((!parseFrom().empty()) && (!parseUntil().empty())) {
+        parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) <<
+            "The properties \"" << common::parseFromStr() << "\" and \"" <<
+            common::parseUntilStr() << "\" of the checksum layer are mutually exclusive.";
+        return false;
+    }
+
     if (!parseFrom().empty()) {
         auto fromIdx = parseFindLayerIndex(layers, parseFrom());
         if (layers.size() <= fromIdx) {
@@ -90,6 +97,12 @@ bool ParseChecksumLayerImpl::parseVerifyImpl(const ParseLayerImpl::ParseLayersLi
         }
 
         auto payloadIdx = parseFindLayerIndex(layers, ParseKind::Payload);
+        if ((payloadIdx < layers.size()) && (thisIdx < payloadIdx)) {
+            parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) <<
+                "The usage of \"" << common::parseFromStr() << "\" property is allowed only when <checksum> layer follows <payload>.";
+            return false;
+        }
+
         if (!parseVerifySuffixLayersOrder(layers, payloadIdx, thisIdx, fromIdx)) {
             return false;
         }
-- 
2.43.0


From 13bf116b7001408e91e8c1570eadfe4a911bca95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:49 +0000
Subject: [PATCH 21/30] fix: ignored "from" property of sync layer, no null
 pointer dereference

---
 lib/src/parse/ParseSyncLayerImpl.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/parse/ParseSyncLayerImpl.cpp b/lib/src/parse/ParseSyncLayerImpl.cpp
index d49a7d2..3ec342b 100644
--- a/lib/src/parse/ParseSyncLayerImpl.cpp
+++ b/lib/src/parse/ParseSyncLayerImpl.cpp
@@ -200,7 +200,7 @@ bool ParseSyncLayerImpl::parseUpdateVerifyBeforeReadInternal()
     if (!parseProtocol().parseIsSyncSuffixLayerSupported()) {
         parseLogWarning() << ParseXmlWrap::parseLogPrefix(parseGetNode()) <<
             "Property \"" << prop << "\" of <sync> layer is not supported for selected dslVersion, ignoring...";
-        m_from = nullptr;
+        m_from = &common::parseEmptyString();
         return true;
     }
 
@@ -235,7 +235,7 @@ bool ParseSyncLayerImpl::parseUpdateFromInternal()
     if (!parseProtocol().parseIsSyncSuffixLayerSupported()) {
         parseLogWarning() << ParseXmlWrap::parseLogPrefix(parseGetNode()) <<
             "Property \"" << prop << "\" of <sync> layer is not supported for selected dslVersion, ignoring...";
-        m_from = nullptr;
+        m_from = &common::parseEmptyString();
         return true;
     }
 
-- 
2.43.0


From d615cd66ae14e50ce34c4c1e7b82f9e083a05712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:49 +0000
Subject: [PATCH 22/30] fix: zero bitLength or length of int, enum, set and ref
 fields is rejected

---
 lib/src/parse/ParseEnumFieldImpl.cpp |  2 +-
 lib/src/parse/ParseRefFieldImpl.cpp  |  2 +-
 lib/src/parse/ParseSetFieldImpl.cpp  | 13 +++++++++++--
 3 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/lib/src/parse/ParseEnumFieldImpl.cpp b/lib/src/parse/ParseEnumFieldImpl.cpp
index e708ca5..7908d9a 100644
--- a/lib/src/parse/ParseEnumFieldImpl.cpp
+++ b/lib/src/parse/ParseEnumFieldImpl.cpp
@@ -374,7 +374,7 @@ bool ParseEnumFieldImpl::parseUpdateBitLength()
 
     bool ok = false;
     m_state.m_bitLength = common::parseStrToUnsigned(valStr, &ok);
-    if (!ok) {
+    if ((!ok) || (m_state.m_bitLength == 0U)) {
         parseReportUnexpectedPropertyValue(common::parseBitLengthStr(), valStr);
         return false;
     }
diff --git a/lib/src/parse/ParseRefFieldImpl.cpp b/lib/src/parse/ParseRefFieldImpl.cpp
index e3f47ed..959c50e 100644
--- a/lib/src/parse/ParseRefFieldImpl.cpp
+++ b/lib/src/parse/ParseRefFieldImpl.cpp
@@ -254,7 +254,7 @@ bool ParseRefFieldImpl::parseUpdateBitLength()
 
     bool ok = false;
     m_state.m_bitLength = common::parseStrToUnsigned(valStr, &ok);
-    if (!ok) {
+    if ((!ok) || (m_state.m_bitLength == 0U)) {
         parseReportUnexpectedPropertyValue(common::parseBitLengthStr(), valStr);
         return false;
     }
diff --git a/lib/src/parse/ParseSetFieldImpl.cpp b/lib/src/parse/ParseSetFieldImpl.cpp
index e9a4515..30e1c27 100644
--- a/lib/src/parse/ParseSetFieldImpl.cpp
+++ b/lib/src/parse/ParseSetFieldImpl.cpp
@@ -349,6 +349,11 @@ bool ParseSetFieldImpl::parseUpdateLength()
         m_state.m_length = newLen;
     } while (false);
 
+    if ((m_state.m_length == 0U) && (!parseIsBitfieldMember())) {
+        parseReportUnexpectedPropertyValue(common::parseLengthStr(), lengthStr);
+        return false;
+    }
+
     bool mustHaveBitLength = (parseIsBitfieldMember() && m_state.m_bitLength == 0U && (m_state.m_length == 0U));
     if (!parseValidateSinglePropInstance(common::parseBitLengthStr(), mustHaveBitLength)) {
         return false;
@@ -358,7 +363,11 @@ bool ParseSetFieldImpl::parseUpdateLength()
     do {
         if (bitLengthStr.empty()) {
             if (m_state.m_bitLength == 0U) {
-                assert(m_state.m_length != 0U);
+                if (m_state.m_length == 0U) {
+                    parseReportUnexpectedPropertyValue(common::parseBitLengthStr(), bitLengthStr);
+                    return false;
+                }
+
                 m_state.m_bitLength = m_state.m_length * 8U;
             }
             break;
@@ -375,7 +384,7 @@ bool ParseSetFieldImpl::parseUpdateLength()
 
         bool ok = false;
         m_state.m_bitLength = static_cast<decltype(m_state.m_bitLength)>(common::parseStrToUintMax(bitLengthStr, &ok));
-        if ((!ok) || (m_state.m_bitLength == 0U)) {
+        if ((!ok) || (m_state.m_bitLength == 0U) || ((maxLength * 8U) < m_state.m_bitLength)) {
             parseReportUnexpectedPropertyValue(common::parseBitLengthStr(), bitLengthStr);
             return false;
         }
-- 
2.43.0


From 5f4d661bd59fd159e9498526ee7755df593e875f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:56 +0000
Subject: [PATCH 23/30] fix: code generation for single enum used as message
 id, and for variant with catch-all member

---
 app/commsdsl2comms/src/CommsEnumField.cpp    | 1 -
 app/commsdsl2comms/src/CommsVariantField.cpp | 8 +++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/app/commsdsl2comms/src/CommsEnumField.cpp b/app/commsdsl2comms/src/CommsEnumField.cpp
index f3e233e..cfa9c15 100644
--- a/app/commsdsl2comms/src/CommsEnumField.cpp
+++ b/app/commsdsl2comms/src/CommsEnumField.cpp
@@ -1409,7 +1409,6 @@ const CommsNamespace* CommsEnumField::commsNamespaceForMsgId() const
         return nullptr;
     }
 
-    assert(allMsgIdFields.front() == this);
     if (allMsgIdFields.front() != this) {
         return nullptr;
     }
diff --git a/app/commsdsl2comms/src/CommsVariantField.cpp b/app/commsdsl2comms/src/CommsVariantField.cpp
index 879db2b..5e4514f 100644
--- a/app/commsdsl2comms/src/CommsVariantField.cpp
+++ b/app/commsdsl2comms/src/CommsVariantField.cpp
@@ -1094,7 +1094,13 @@ std::string CommsVariantField::commsOptimizedReadKeyInternal() const
         }
 
         if (!validPropKey) {
-            // last "catch all" element
+            // last "catch all" element, still must have numeric key
+            auto& bundleMembers = bundle.commsMembers();
+            if ((bundleMembers.empty()) ||
+                (bundleMembers.front()->commsGenField().genParseObj().parseKind() != commsdsl::parse::ParseField::ParseKind::Int)) {
+                return result;
+            }
+
             continue;
         }
 
-- 
2.43.0


From 026d402231d102b07dd1a2a88460fd7e15953dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:56 +0000
Subject: [PATCH 24/30] fix: zero bitLength of int field is rejected, equal
 special values are not a failure

---
 lib/src/parse/ParseFloatFieldImpl.cpp | 1 -
 lib/src/parse/ParseIntFieldImpl.cpp   | 3 +--
 2 files changed, 1 insertion(+), 3 deletions(-)

diff --git a/lib/src/parse/ParseFloatFieldImpl.cpp b/lib/src/parse/ParseFloatFieldImpl.cpp
index 539e57a..79351a9 100644
--- a/lib/src/parse/ParseFloatFieldImpl.cpp
+++ b/lib/src/parse/ParseFloatFieldImpl.cpp
@@ -506,7 +506,6 @@ bool ParseFloatFieldImpl::parseUpdateValidRanges()
                 return elem1.m_sinceVersion < elem2.m_sinceVersion;
             }
 
-            assert(elem1.m_deprecatedSince != elem2.m_deprecatedSince);
             return elem1.m_deprecatedSince < elem2.m_deprecatedSince;
         });
 
diff --git a/lib/src/parse/ParseIntFieldImpl.cpp b/lib/src/parse/ParseIntFieldImpl.cpp
index e73bad8..794fbc7 100644
--- a/lib/src/parse/ParseIntFieldImpl.cpp
+++ b/lib/src/parse/ParseIntFieldImpl.cpp
@@ -641,7 +641,7 @@ bool ParseIntFieldImpl::parseUpdateBitLength()
 
     bool ok = false;
     m_state.m_bitLength = common::parseStrToUnsigned(valStr, &ok);
-    if (!ok) {
+    if ((!ok) || (m_state.m_bitLength == 0U)) {
         parseReportUnexpectedPropertyValue(common::parseBitLengthStr(), valStr);
         return false;
     }
@@ -993,7 +993,6 @@ bool ParseIntFieldImpl::parseUpdateValidRanges()
                 return elem1.m_sinceVersion < elem2.m_sinceVersion;
             }
 
-            assert(elem1.m_deprecatedSince != elem2.m_deprecatedSince);
             return elem1.m_deprecatedSince < elem2.m_deprecatedSince;
         });
 
-- 
2.43.0


From 975bb36d2f89371f3923caeac9d8f567bc756ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:56 +0000
Subject: [PATCH 25/30] fix: unknown or missing member field of other fields
 and layers is reported

---
 lib/src/parse/ParseDataFieldImpl.cpp     |  6 +++---
 lib/src/parse/ParseFieldImpl.cpp         | 13 ++++++++-----
 lib/src/parse/ParseLayerImpl.cpp         | 11 +++++++++--
 lib/src/parse/ParseListFieldImpl.cpp     |  4 ++--
 lib/src/parse/ParseOptionalFieldImpl.cpp | 11 +++++++++--
 lib/src/parse/ParseStringFieldImpl.cpp   |  4 ++--
 6 files changed, 33 insertions(+), 16 deletions(-)

diff --git a/lib/src/parse/ParseDataFieldImpl.cpp b/lib/src/parse/ParseDataFieldImpl.cpp
index ffcd923..ea9b528 100644
--- a/lib/src/parse/ParseDataFieldImpl.cpp
+++ b/lib/src/parse/ParseDataFieldImpl.cpp
@@ -447,8 +447,8 @@ bool ParseDataFieldImpl::parseCheckPrefixAsChild()
 
     auto field = ParseFieldImpl::parseCreate(fieldKind, fieldNode, parseProtocol());
     if (!field) {
-        [[maybe_unused]] static constexpr bool Should_not_happen = false;
-        assert(Should_not_happen);
+        parseLogError() << ParseXmlWrap::parseLogPrefix(fieldNode) <<
+            "Unknown field type \"" << fieldKind << "\".";
         return false;
     }
 
@@ -544,7 +544,7 @@ const ParseFieldImpl* ParseDataFieldImpl::parseGetPrefixField() const
 bool ParseDataFieldImpl::parseStrToValue(const std::string& str, ParseValueType& val) const
 {
     if ((!str.empty()) && (str[0] == common::parseStringRefPrefix()) && parseProtocol().parseIsFieldValueReferenceSupported()) {
-        return parseProtocol().parseStrToData(std::string(str, 1), false, val);
+        return parseProtocol().parseStrToData(std::string(str, 1), true, val);
     }
 
     std::string adjStr = str;
diff --git a/lib/src/parse/ParseFieldImpl.cpp b/lib/src/parse/ParseFieldImpl.cpp
index f9e36ad..5f4dff3 100644
--- a/lib/src/parse/ParseFieldImpl.cpp
+++ b/lib/src/parse/ParseFieldImpl.cpp
@@ -1132,10 +1132,8 @@ bool ParseFieldImpl::parseCheckReplace()
         std::string fieldKind(reinterpret_cast<const char*>(fieldNode->name));
         auto field = ParseFieldImpl::parseCreate(fieldKind, fieldNode, parseProtocol());
         if (!field) {
-            [[maybe_unused]] static constexpr bool Should_not_happen = false;
-            assert(Should_not_happen);
-            parseLogError() << ParseXmlWrap::parseLogPrefix(replaceNodes.front()) <<
-                "Internal error, failed to create objects for member fields to replace.";
+            parseLogError() << ParseXmlWrap::parseLogPrefix(fieldNode) <<
+                "Unknown field type \"" << fieldKind << "\".";
             return false;
         }
 
@@ -1147,7 +1145,12 @@ bool ParseFieldImpl::parseCheckReplace()
         replMembers.push_back(std::move(field));
     }
 
-    assert(!replMembers.empty());
+    if (replMembers.empty()) {
+        parseLogError() << ParseXmlWrap::parseLogPrefix(replaceNodes.front()) <<
+            "The \"" << common::parseReplaceStr() << "\" child node element must contain at least one member field.";
+        return false;
+    }
+
     return parseReplaceMembersImpl(replMembers);
 }
 
diff --git a/lib/src/parse/ParseLayerImpl.cpp b/lib/src/parse/ParseLayerImpl.cpp
index a15c1e4..ebe29a4 100644
--- a/lib/src/parse/ParseLayerImpl.cpp
+++ b/lib/src/parse/ParseLayerImpl.cpp
@@ -567,8 +567,15 @@ bool ParseLayerImpl::parseCheckFieldAsChild()
         }
 
         if (parseProps().find(common::parseFieldStr()) == parseProps().end()) {
-            fieldNode = fields.front();
-            break;
+            if (!fields.empty()) {
+                fieldNode = fields.front();
+                break;
+            }
+
+            parseLogError() << ParseXmlWrap::parseLogPrefix(child) <<
+                "The \"" << common::parseFieldStr() << "\" element "
+                "is expected to define field as child element";
+            return false;
         }
 
         auto attrs = ParseXmlWrap::parseNodeProps(parseGetNode());
diff --git a/lib/src/parse/ParseListFieldImpl.cpp b/lib/src/parse/ParseListFieldImpl.cpp
index 66e1e0c..20df205 100644
--- a/lib/src/parse/ParseListFieldImpl.cpp
+++ b/lib/src/parse/ParseListFieldImpl.cpp
@@ -714,8 +714,8 @@ bool ParseListFieldImpl::parseCheckPrefixAsChild(
 
     auto field = ParseFieldImpl::parseCreate(fieldKind, fieldNode, parseProtocol());
     if (!field) {
-        [[maybe_unused]] static constexpr bool Should_not_happen = false;
-        assert(Should_not_happen);
+        parseLogError() << ParseXmlWrap::parseLogPrefix(fieldNode) <<
+            "Unknown field type \"" << fieldKind << "\".";
         return false;
     }
 
diff --git a/lib/src/parse/ParseOptionalFieldImpl.cpp b/lib/src/parse/ParseOptionalFieldImpl.cpp
index dafbcdc..64c871c 100644
--- a/lib/src/parse/ParseOptionalFieldImpl.cpp
+++ b/lib/src/parse/ParseOptionalFieldImpl.cpp
@@ -490,8 +490,15 @@ bool ParseOptionalFieldImpl::parseCheckFieldAsChild()
         }
 
         if (parseProps().find(common::parseFieldStr()) == parseProps().end()) {
-            fieldNode = fields.front();
-            break;
+            if (!fields.empty()) {
+                fieldNode = fields.front();
+                break;
+            }
+
+            parseLogError() << ParseXmlWrap::parseLogPrefix(child) <<
+                "The \"" << common::parseFieldStr() << "\" element "
+                "is expected to define field as child element";
+            return false;
         }
 
         auto attrs = ParseXmlWrap::parseNodeProps(parseGetNode());
diff --git a/lib/src/parse/ParseStringFieldImpl.cpp b/lib/src/parse/ParseStringFieldImpl.cpp
index bc28561..f889637 100644
--- a/lib/src/parse/ParseStringFieldImpl.cpp
+++ b/lib/src/parse/ParseStringFieldImpl.cpp
@@ -547,8 +547,8 @@ bool ParseStringFieldImpl::parseCheckPrefixAsChild()
 
     auto field = ParseFieldImpl::parseCreate(fieldKind, fieldNode, parseProtocol());
     if (!field) {
-        [[maybe_unused]] static constexpr bool Should_not_happen = false;
-        assert(Should_not_happen);
+        parseLogError() << ParseXmlWrap::parseLogPrefix(fieldNode) <<
+            "Unknown field type \"" << fieldKind << "\".";
         return false;
     }
 
-- 
2.43.0


From b70b4b39e55f405a2d781fbbc897bcbd07c2adf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:55 +0000
Subject: [PATCH 26/30] fix: frame-less protocol is refused by commsdsl2test
 before anything is written

---
 app/commsdsl2test/src/TestCmake.cpp     |  6 +-----
 app/commsdsl2test/src/TestGenerator.cpp | 14 ++++++++++++++
 app/commsdsl2test/src/TestGenerator.h   |  3 +++
 3 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/app/commsdsl2test/src/TestCmake.cpp b/app/commsdsl2test/src/TestCmake.cpp
index ed3f57d..aad8b21 100644
--- a/app/commsdsl2test/src/TestCmake.cpp
+++ b/app/commsdsl2test/src/TestCmake.cpp
@@ -56,11 +56,7 @@ bool TestCmake::testWriteInternal() const
     auto interfaceScope = commsdsl::gen::comms::genScopeFor(*firstInterface, m_testGenerator);
 
     auto allFrames = m_testGenerator.genGetAllFrames();
-    if (allFrames.empty()) {
-        m_testGenerator.genLogger().genError("The protocol doesn't define any frame.");
-        return false;
-    }
-
+    assert(!allFrames.empty());
     auto* firstFrame = allFrames.front();
     assert(!firstFrame->genName().empty());
 
diff --git a/app/commsdsl2test/src/TestGenerator.cpp b/app/commsdsl2test/src/TestGenerator.cpp
index 8356c6b..e80bfcf 100644
--- a/app/commsdsl2test/src/TestGenerator.cpp
+++ b/app/commsdsl2test/src/TestGenerator.cpp
@@ -43,6 +43,20 @@ const std::string& TestGenerator::testFileGeneratedComment()
     return Str;
 }
 
+bool TestGenerator::genPrepareImpl()
+{
+    if (!GenBase::genPrepareImpl()) {
+        return false;
+    }
+
+    if (genGetAllFrames().empty()) {
+        genLogger().genError("The protocol doesn't define any frame.");
+        return false;
+    }
+
+    return true;
+}
+
 bool TestGenerator::genWriteImpl()
 {
     assert(&genCurrentSchema() == &genProtocolSchema());
diff --git a/app/commsdsl2test/src/TestGenerator.h b/app/commsdsl2test/src/TestGenerator.h
index 8974f0b..d011226 100644
--- a/app/commsdsl2test/src/TestGenerator.h
+++ b/app/commsdsl2test/src/TestGenerator.h
@@ -23,10 +23,13 @@ namespace commsdsl2test
 
 class TestGenerator final : public commsdsl::gen::GenGenerator
 {
+    using GenBase = commsdsl::gen::GenGenerator;
+
 public:
     static const std::string& testFileGeneratedComment();
 
 protected:
+    virtual bool genPrepareImpl() override;
     virtual bool genWriteImpl() override;
 
 private:
-- 
2.43.0


From 3dff6ce9a480c0d5a6b9cf1d6b3009b9efb8c815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:55 +0000
Subject: [PATCH 27/30] fix: several custom checksum layers in the frame,
 duplicate layer name is an error

---
 lib/src/gen/GenCustomLayer.cpp         | 20 ++++++++------------
 lib/src/parse/ParseCustomLayerImpl.cpp | 14 ++++++++++++++
 lib/src/parse/ParseFrameImpl.cpp       |  1 +
 3 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/lib/src/gen/GenCustomLayer.cpp b/lib/src/gen/GenCustomLayer.cpp
index 605c90d..afa221d 100644
--- a/lib/src/gen/GenCustomLayer.cpp
+++ b/lib/src/gen/GenCustomLayer.cpp
@@ -115,20 +115,16 @@ bool GenCustomLayer::genForceCommsOrderImpl(GenLayersAccessList& layers, bool& s
         return false;
     }
 
-    auto iterTmp = iter;
-    std::advance(iterTmp, 1U);
-    if (iterTmp == fromIter) {
-        // Already in place
-        success = true;
-        return false;
+    auto dist = std::distance(iter, fromIter);
+    if (dist < 0) {
+        // Not relocated yet
+        auto* thisPtr = *iter;
+        layers.erase(iter);
+        layers.insert(fromIter, thisPtr);
     }
 
-    auto thisPtr = std::move(*iter);
-    layers.erase(iter);
-    layers.insert(fromIter, std::move(thisPtr));
-    success = true;
-    return true;
-
+    // Already in place
+    return genAdjustSuffixLayersOrder(layers, success);
 }
 
 } // namespace gen
diff --git a/lib/src/parse/ParseCustomLayerImpl.cpp b/lib/src/parse/ParseCustomLayerImpl.cpp
index 7c3319f..c4d01d9 100644
--- a/lib/src/parse/ParseCustomLayerImpl.cpp
+++ b/lib/src/parse/ParseCustomLayerImpl.cpp
@@ -213,6 +213,13 @@ bool ParseCustomLayerImpl::parseVerifyChecksumInternal(const ParseLayersList& la
         return false;
     }
 
+    if ((!m_checksumFromLayer.empty()) && (!m_checksumUntilLayer.empty())) {
+        parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) <<
+            "The properties \"" << common::parseChecksumFromStr() << "\" and \"" <<
+            common::parseChecksumUntilStr() << "\" of the custom layer are mutually exclusive.";
+        return false;
+    }
+
     if (!m_checksumFromLayer.empty()) {
         auto fromIdx = parseFindLayerIndex(layers, m_checksumFromLayer);
         if (layers.size() <= fromIdx) {
@@ -225,6 +232,13 @@ bool ParseCustomLayerImpl::parseVerifyChecksumInternal(const ParseLayersList& la
                 "Layer \"" << m_checksumFromLayer << "\" must appear before the \"" << parseName() << "\".";
             return false;
         }
+
+        auto payloadIdx = parseFindLayerIndex(layers, ParseKind::Payload);
+        if ((payloadIdx < layers.size()) && (thisIdx < payloadIdx)) {
+            parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) <<
+                "The usage of \"" << common::parseChecksumFromStr() << "\" property is allowed only when the layer follows <payload>.";
+            return false;
+        }
     }
 
     if (!m_checksumUntilLayer.empty()) {
diff --git a/lib/src/parse/ParseFrameImpl.cpp b/lib/src/parse/ParseFrameImpl.cpp
index 26e4e86..dc9c540 100644
--- a/lib/src/parse/ParseFrameImpl.cpp
+++ b/lib/src/parse/ParseFrameImpl.cpp
@@ -303,6 +303,7 @@ bool ParseFrameImpl::parseUpdateLayers()
             parseLogError() << ParseXmlWrap::parseLogPrefix(lNode) <<
                 "Layer with name \"" << layer->parseName() << "\" has already been "
                 "defined within the same frame.";
+            return false;
         }
 
         if (layer->parseKind() == ParseLayerImpl::ParseKind::Payload) {
-- 
2.43.0


From ba3fcee7f2fec543b0aeee6dac5d1a37ae5d2ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:29 +0000
Subject: [PATCH 28/30] fix: swig output without suitable interface has no
 input messages

---
 app/commsdsl2swig/src/SwigNamespace.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/commsdsl2swig/src/SwigNamespace.cpp b/app/commsdsl2swig/src/SwigNamespace.cpp
index 77e26d1..ae89856 100644
--- a/app/commsdsl2swig/src/SwigNamespace.cpp
+++ b/app/commsdsl2swig/src/SwigNamespace.cpp
@@ -194,7 +194,7 @@ const SwigInputMessages* SwigNamespace::swigInputMessages() const
 
 bool SwigNamespace::swigHasInput() const
 {
-    return (genHasFramesRecursive() && genHasMessagesRecursive());
+    return (swigInterface() != nullptr) && genHasFramesRecursive() && genHasMessagesRecursive();
 }
 
 const SwigInterface* SwigNamespace::swigInterface() const
-- 
2.43.0


From 3f2dff0fe4065caa5f851c408da03c2b9b9d4498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:09 +0000
Subject: [PATCH 29/30] fix: print the invalid name of a layer in its
 diagnostic, not a pointer

---
 lib/src/parse/ParseLayerImpl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/parse/ParseLayerImpl.cpp b/lib/src/parse/ParseLayerImpl.cpp
index ebe29a4..9bcc548 100644
--- a/lib/src/parse/ParseLayerImpl.cpp
+++ b/lib/src/parse/ParseLayerImpl.cpp
@@ -389,7 +389,7 @@ bool ParseLayerImpl::parseUpdateName()
 
     if (!common::parseIsValidName(*m_name)) {
         parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) <<
-                      "Invalid value for name property \"" << m_name << "\".";
+                      "Invalid value for name property \"" << *m_name << "\".";
         return false;
     }
 
-- 
2.43.0


From 4f19e1db8047e72ade8044cda1ea74306a65fba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:32 +0000
Subject: [PATCH 30/30] fix: no swig or emscripten message handler for a
 namespace the forced interface does not suit

---
 .../src/EmscriptenNamespace.cpp                    | 14 +++++++++-----
 app/commsdsl2swig/src/SwigNamespace.cpp            | 13 +++++++------
 2 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/app/commsdsl2emscripten/src/EmscriptenNamespace.cpp b/app/commsdsl2emscripten/src/EmscriptenNamespace.cpp
index 649b5cc..8d25ccd 100644
--- a/app/commsdsl2emscripten/src/EmscriptenNamespace.cpp
+++ b/app/commsdsl2emscripten/src/EmscriptenNamespace.cpp
@@ -70,6 +70,9 @@ void EmscriptenNamespace::emscriptenAddSourceFiles(GenStringsList& sources) cons
 
     if (!genInterfaces().empty()) {
         m_msgId.emscriptenAddSourceFiles(sources);
+    }
+
+    if ((!genInterfaces().empty()) && (emscriptenInterface() != nullptr)) {
         m_handler.emscriptenAddSourceFiles(sources);
     }
 }
@@ -149,11 +152,12 @@ const EmscriptenInterface* EmscriptenNamespace::emscriptenInterface() const
 
 bool EmscriptenNamespace::genWriteImpl() const
 {
-    if (!genInterfaces().empty()) {
-        if ((!m_msgId.emscriptenWrite()) ||
-            (!m_handler.emscriptenWrite())) {
-            return false;
-        }
+    if ((!genInterfaces().empty()) && (!m_msgId.emscriptenWrite())) {
+        return false;
+    }
+
+    if ((!genInterfaces().empty()) && (emscriptenInterface() != nullptr) && (!m_handler.emscriptenWrite())) {
+        return false;
     }
 
     if (emscriptenHasInput()) {
diff --git a/app/commsdsl2swig/src/SwigNamespace.cpp b/app/commsdsl2swig/src/SwigNamespace.cpp
index ae89856..23839b6 100644
--- a/app/commsdsl2swig/src/SwigNamespace.cpp
+++ b/app/commsdsl2swig/src/SwigNamespace.cpp
@@ -132,7 +132,7 @@ void SwigNamespace::swigAddDef(GenStringsList& list) const
         SwigMessage::swigCast(m.get())->swigAddDef(list);
     }
 
-    if (!genInterfaces().empty()) {
+    if ((!genInterfaces().empty()) && (swigInterface() != nullptr)) {
         m_handler.swigAddDef(list);
     }
 
@@ -219,11 +219,12 @@ bool SwigNamespace::genPrepareImpl()
 
 bool SwigNamespace::genWriteImpl() const
 {
-    if (!genInterfaces().empty()) {
-        if ((!m_msgId.swigWrite()) ||
-            (!m_handler.swigWrite())) {
-            return false;
-        }
+    if ((!genInterfaces().empty()) && (!m_msgId.swigWrite())) {
+        return false;
+    }
+
+    if ((!genInterfaces().empty()) && (swigInterface() != nullptr) && (!m_handler.swigWrite())) {
+        return false;
     }
 
     return true;
-- 
2.43.0

