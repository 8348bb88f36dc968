From c93073fa1c1e94a9d45302f63ec5ab9f3ae73aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:27 +0000
Subject: [PATCH 01/84] fix: subtract the zero point from every machine point

The conditional operator bound looser than the subtraction, so a machine
point became 0 (or threw out_of_range for an axis without a zero point).
---
 parser/fanuc/AllAttributesParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/fanuc/AllAttributesParser.cpp b/parser/fanuc/AllAttributesParser.cpp
index a16b874..e8d80ac 100644
--- a/parser/fanuc/AllAttributesParser.cpp
+++ b/parser/fanuc/AllAttributesParser.cpp
@@ -145,13 +145,13 @@ void AllAttributesParser::set_ncsettings(EMachineTool machine_tool, EMachineTool
     for (const auto& it : machine_points_data.tool_exchange_point)
     {
         machine_points_data_zero_point.tool_exchange_point[it.first] =
-            it.second - zero_point_axis_map.count(it.first) ? zero_point_axis_map.at(it.first) : 0;
+            it.second - (zero_point_axis_map.count(it.first) ? zero_point_axis_map.at(it.first) : 0);
     }
 
     for (const auto& it : machine_points_data.machine_base_point)
     {
         machine_points_data_zero_point.machine_base_point[it.first] =
-            it.second - zero_point_axis_map.count(it.first) ? zero_point_axis_map.at(it.first) : 0;
+            it.second - (zero_point_axis_map.count(it.first) ? zero_point_axis_map.at(it.first) : 0);
     }
 
     attr_path_calc =
-- 
2.43.0


From 266ec148ce96d9ced567a374665549819cf2f15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:13 +0000
Subject: [PATCH 02/84] fix: start every block with a clean grammar status

The bracket and macro-assignment status of one block (and of the unevaluated
text of a block) was still in force while the next one was verified, so the
verdict on a block depended on the blocks before it.
---
 parser/fanuc/AllAttributesParser.cpp      | 1 +
 parser/fanuc/AllAttributesParserGrammar.h | 1 +
 2 files changed, 2 insertions(+)

diff --git a/parser/fanuc/AllAttributesParser.cpp b/parser/fanuc/AllAttributesParser.cpp
index e8d80ac..b3cf4a3 100644
--- a/parser/fanuc/AllAttributesParser.cpp
+++ b/parser/fanuc/AllAttributesParser.cpp
@@ -238,6 +238,7 @@ bool AllAttributesParser::parse(int line, std::string_view data, std::vector<Att
             position_begin2         = pos_iterator_type(evaluated_code_view.cbegin());
             pos_iterator_type iter2 = position_begin2, position_end2(evaluated_code_view.cend());
             evaluated_code_part     = true;
+            all_attr_grammar->clear_message();
             ret                     = qi::phrase_parse(iter2, position_end2, *all_attr_grammar, qi::blank, value2);
             evaluated_code_part     = false;
 
diff --git a/parser/fanuc/AllAttributesParserGrammar.h b/parser/fanuc/AllAttributesParserGrammar.h
index abbfaac..2260fac 100644
--- a/parser/fanuc/AllAttributesParserGrammar.h
+++ b/parser/fanuc/AllAttributesParserGrammar.h
@@ -476,6 +476,7 @@ public:
     void clear_message()
     {
         message.clear();
+        st = {};
     }
 
 private:
-- 
2.43.0


From 76be37edc7be6d5afeca9fdbcc803bde60ad69ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:13 +0000
Subject: [PATCH 03/84] fix: report failure when the evaluated block does not
 parse

The first parse of the block had left the return value true, so a block whose
substituted macro values break the syntax was accepted.
---
 parser/fanuc/AllAttributesParser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/fanuc/AllAttributesParser.cpp b/parser/fanuc/AllAttributesParser.cpp
index b3cf4a3..6ce089c 100644
--- a/parser/fanuc/AllAttributesParser.cpp
+++ b/parser/fanuc/AllAttributesParser.cpp
@@ -277,6 +277,7 @@ bool AllAttributesParser::parse(int line, std::string_view data, std::vector<Att
     }
     catch (const qi::expectation_failure<pos_iterator_type>& e)
     {
+        ret           = false;
         size_t line   = get_line(e.first);
         size_t column = get_column(evaluated_code_part ? position_begin2 : position_begin, e.first);
         message       = all_attr_grammar->get_message();
-- 
2.43.0


From 3779c24ac54f688a2672cdb139ae9ac1b710521d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:35 +0000
Subject: [PATCH 04/84] fix: do not evaluate the missing number of an
 unfinished address

A block such as 'M[' or 'F[' made std::stod throw an exception that nobody
caught, and a '#' without number was dereferenced.
---
 parser/fanuc/MacroEvaluatedCodeVerifier.cpp | 2 +-
 parser/fanuc/SystemMacroAssigner.cpp        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/fanuc/MacroEvaluatedCodeVerifier.cpp b/parser/fanuc/MacroEvaluatedCodeVerifier.cpp
index fac2654..2b8d21f 100644
--- a/parser/fanuc/MacroEvaluatedCodeVerifier.cpp
+++ b/parser/fanuc/MacroEvaluatedCodeVerifier.cpp
@@ -44,7 +44,7 @@ public:
             text += *data.sign;
         if (data.open_bracket)
             text += *data.open_bracket;
-        if (was_interesting_word && data.macro)
+        if (was_interesting_word && data.macro && data.value)
         {
             unsigned int val        = std::stoi(*data.value);
             auto         macro_itor = macro_values.lower_bound({val, line});
diff --git a/parser/fanuc/SystemMacroAssigner.cpp b/parser/fanuc/SystemMacroAssigner.cpp
index cafd964..a7a8b94 100644
--- a/parser/fanuc/SystemMacroAssigner.cpp
+++ b/parser/fanuc/SystemMacroAssigner.cpp
@@ -52,7 +52,7 @@ public:
                 macro_values.insert_or_assign(macro_map_key{v, line}, value);
         };
 
-        if (word_macros_map.count(data.word))
+        if (word_macros_map.count(data.word) && (data.value || data.value2))
             macro_value_inserter(word_macros_map.find(data.word)->second);
     }
 
-- 
2.43.0


From 672284bd83ceb6708451d179bc549819d59192a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:33 +0000
Subject: [PATCH 05/84] fix: keep the line, the column and the text of a
 diagnostic apart

A message was cut at its second colon, and the words 'line 1' inside the
text of a block moved its diagnostic to line 0.
---
 nclangsrv/JsonMessageHandler.cpp | 34 +++++++++++++-------------------
 nclangsrv/NCParser.cpp           | 25 ++++++++---------------
 2 files changed, 22 insertions(+), 37 deletions(-)

diff --git a/nclangsrv/JsonMessageHandler.cpp b/nclangsrv/JsonMessageHandler.cpp
index df2fb44..0ffc91c 100644
--- a/nclangsrv/JsonMessageHandler.cpp
+++ b/nclangsrv/JsonMessageHandler.cpp
@@ -1060,33 +1060,27 @@ void JsonMessageHandler::textDocument_publishDiagnostics(const std::string& uri,
             int32_t     character{};
             std::string result_message = error_message;
 
-            std::string              data;
-            std::vector<std::string> tokens;
-            std::stringstream        ss(error_message);
-            while (std::getline(ss, data, ':'))
+            // "line: text" or "line:character: text", where the text may contain colons
+            const auto line_end = error_message.find(':');
+            if (line_end != std::string::npos)
             {
-                boost::algorithm::trim(data);
-                tokens.push_back(data);
-                if (mLogger)
-                    LOGGER << "JsonMessageHandler::" << __func__ << ": [" << data << "]" << std::endl;
-            }
-
-            if (not tokens.empty())
-            {
-                line = atoi(tokens[0].c_str());
+                line = atoi(error_message.c_str());
                 if (line > 0)
                     line--;
-                if (tokens.size() > 2)
+
+                auto       text_begin    = line_end + 1;
+                const auto character_end = error_message.find_first_not_of("0123456789", text_begin);
+                if (character_end != std::string::npos && character_end != text_begin &&
+                    error_message[character_end] == ':')
                 {
-                    character = atoi(tokens[1].c_str());
+                    character = atoi(error_message.c_str() + text_begin);
                     if (character > 0)
                         character--;
-                    result_message = tokens[2];
-                }
-                else
-                {
-                    result_message = tokens[1];
+                    text_begin = character_end + 1;
                 }
+
+                result_message = error_message.substr(text_begin);
+                boost::algorithm::trim(result_message);
             }
 
             if (line != 0 or character != 0 or not result_message.empty())
diff --git a/nclangsrv/NCParser.cpp b/nclangsrv/NCParser.cpp
index c867542..6007d4c 100644
--- a/nclangsrv/NCParser.cpp
+++ b/nclangsrv/NCParser.cpp
@@ -392,7 +392,6 @@ std::tuple<std::vector<std::string>, fanuc::macro_map, PathTimeResult> NCParser:
     size_t                   line_nbr{};
     size_t                   line_err{};
     std::string              text;
-    const std::string        line_str("line 1");
     double                   prev_time_total{};
     double                   total_work_motion_path{};
     double                   total_work_motion_time{};
@@ -438,26 +437,18 @@ std::tuple<std::vector<std::string>, fanuc::macro_map, PathTimeResult> NCParser:
         if (!ret)
         {
             ++line_err;
-            auto pos = message.find(line_str);
-            if (pos != std::string::npos)
+            if (message.empty())
             {
-                message.replace(pos, line_str.size(), "line " + std::to_string(line_nbr));
+                message = data;
+                message = std::to_string(line_nbr) + R"(: ')" + message + R"(')";
+            }
+            else if (message.compare(0, 2, "1:") == 0)
+            {
+                message = std::to_string(line_nbr) + message.substr(1);
             }
             else
             {
-                if (message.empty())
-                {
-                    message = data;
-                    message = std::to_string(line_nbr) + R"(: ')" + message + R"(')";
-                }
-                else if (message[0] == '1')
-                {
-                    message = std::to_string(line_nbr) + message.substr(1);
-                }
-                else
-                {
-                    message = std::to_string(line_nbr) + ": " + message;
-                }
+                message = std::to_string(line_nbr) + ": " + message;
             }
             messages.push_back(message);
         }
-- 
2.43.0


From 8a9f22232a71a38ab469f5603eb28681d847b09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:33 +0000
Subject: [PATCH 06/84] fix: take the text of the last content change

didChange may carry several full texts, the last of which is the current one;
an empty list was read out of bounds.
---
 nclangsrv/JsonMessageHandler.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nclangsrv/JsonMessageHandler.cpp b/nclangsrv/JsonMessageHandler.cpp
index 0ffc91c..1daf152 100644
--- a/nclangsrv/JsonMessageHandler.cpp
+++ b/nclangsrv/JsonMessageHandler.cpp
@@ -382,7 +382,11 @@ void JsonMessageHandler::textDocument_didChange(const rapidjson::Document& reque
     const auto& textDocument   = params["textDocument"];
     const auto& contentChanges = params["contentChanges"];
 
-    textDocument_publishDiagnostics(textDocument["uri"].GetString(), contentChanges[0]["text"].GetString());
+    if (contentChanges.Empty())
+        return;
+
+    // full text synchronization: the last change holds the current text
+    textDocument_publishDiagnostics(textDocument["uri"].GetString(), contentChanges[contentChanges.Size() - 1]["text"].GetString());
 }
 
 void JsonMessageHandler::textDocument_didClose(const rapidjson::Document& request)
-- 
2.43.0


From 00088fc18e48025b6498ede8d2cbccde46a80a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:13 +0000
Subject: [PATCH 07/84] fix: macro description ranges include both ends; no
 logger is needed

The first and last macro of a documented range had no description, and a
number that does not fit an int made the server dereference a null logger.
---
 nclangsrv/MacrosDescReader.cpp | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/nclangsrv/MacrosDescReader.cpp b/nclangsrv/MacrosDescReader.cpp
index 2674376..a923f2a 100644
--- a/nclangsrv/MacrosDescReader.cpp
+++ b/nclangsrv/MacrosDescReader.cpp
@@ -102,14 +102,20 @@ void MacrosDescReader::readRanges()
                 }
                 catch (const std::invalid_argument& e)
                 {
-                    LOGGER << "MacrosDescReader::" << __func__ << ": ERR: " << e.what() << std::endl;
-                    mLogger->flush();
+                    if (mLogger)
+                    {
+                        LOGGER << "MacrosDescReader::" << __func__ << ": ERR: " << e.what() << std::endl;
+                        mLogger->flush();
+                    }
                     continue;
                 }
                 catch (const std::out_of_range& e)
                 {
-                    LOGGER << "MacrosDescReader::" << __func__ << ": ERR: " << e.what() << std::endl;
-                    mLogger->flush();
+                    if (mLogger)
+                    {
+                        LOGGER << "MacrosDescReader::" << __func__ << ": ERR: " << e.what() << std::endl;
+                        mLogger->flush();
+                    }
                     continue;
                 }
 
@@ -134,19 +140,25 @@ MacrosDescReader::MacroDescPair MacrosDescReader::getDesc(const std::string& cod
     }
     catch (const std::invalid_argument& e)
     {
-        LOGGER << "MacrosDescReader::" << __func__ << ": ERR: " << e.what() << std::endl;
-        mLogger->flush();
+        if (mLogger)
+        {
+            LOGGER << "MacrosDescReader::" << __func__ << ": ERR: " << e.what() << std::endl;
+            mLogger->flush();
+        }
         return {};
     }
     catch (const std::out_of_range& e)
     {
-        LOGGER << "MacrosDescReader::" << __func__ << ": ERR: " << e.what() << std::endl;
-        mLogger->flush();
+        if (mLogger)
+        {
+            LOGGER << "MacrosDescReader::" << __func__ << ": ERR: " << e.what() << std::endl;
+            mLogger->flush();
+        }
         return {};
     }
 
     auto it = std::find_if(mRanges.cbegin(), mRanges.cend(),
-                           [&icode](const auto& r) { return icode > r.first.first and icode < r.first.second; });
+                           [&icode](const auto& r) { return icode >= r.first.first and icode <= r.first.second; });
     if (it != mRanges.cend())
     {
         if (mData.count(it->second))
-- 
2.43.0


From 62f62009bbf61da86edbbd7daee5fc241d0329a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:13 +0000
Subject: [PATCH 08/84] fix: answer requests whose data is missing or malformed

Malformed JSON, a macro number that does not fit, a resolve request before the
first completion and a broken user macro description file ended the server or
(the last one) were reported only once. A hover over an undefined macro code
answers null.
---
 nclangsrv/JsonMessageHandler.cpp | 35 ++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/nclangsrv/JsonMessageHandler.cpp b/nclangsrv/JsonMessageHandler.cpp
index 1daf152..b1c93f1 100644
--- a/nclangsrv/JsonMessageHandler.cpp
+++ b/nclangsrv/JsonMessageHandler.cpp
@@ -3,8 +3,11 @@
 #include "JsonMessageHandler.h"
 
 #include <chrono>
+#include <cstdint>
+#include <cstdlib>
 #include <filesystem>
 #include <iostream>
+#include <limits>
 #include <memory>
 #include <regex>
 #include <sstream>
@@ -143,6 +146,14 @@ std::string extractCode(const std::string& data)
     return code;
 }
 
+// number which does not fit is a number of no macro
+uint32_t macroNumber(const std::string& code)
+{
+    const auto value = std::strtoull(code.c_str(), nullptr, 10);
+    return value < std::numeric_limits<uint32_t>::max() ? static_cast<uint32_t>(value)
+                                                        : std::numeric_limits<uint32_t>::max();
+}
+
 std::string replaceAll(const std::string& str1, const std::string& from, const std::string& to)
 {
     std::string str       = str1;
@@ -216,6 +227,9 @@ bool JsonMessageHandler::parse(const std::string& json)
                    << parse_result.Offset() << ")" << std::endl;
     }
 
+    if (not parse_result or not d.IsObject())
+        return false;
+
     if (d.HasMember("id"))
     {
         if (d["id"].IsInt())
@@ -224,7 +238,7 @@ bool JsonMessageHandler::parse(const std::string& json)
             id = atoi(d["id"].GetString());
     }
 
-    if (d.HasMember("method"))
+    if (d.HasMember("method") && d["method"].IsString())
     {
         method = std::string{d["method"].GetString(), d["method"].GetStringLength()};
     }
@@ -440,8 +454,9 @@ void JsonMessageHandler::fetch_macrosDesc()
                                       fs::path(parserType_str(mNcSettingsReader.getFanucParserType())) /
                                       fs::path("desc") / fs::path("macros_desc_" + getLangPrefix(mLanguage) + ".json"))
                             .string();
-        mMacrosDesc = std::make_unique<MacrosDescReader>(descPath, mMacrosDescUserPath, mLogger);
-        mMacrosDesc->read();
+        auto macrosDesc = std::make_unique<MacrosDescReader>(descPath, mMacrosDescUserPath, mLogger);
+        macrosDesc->read();
+        mMacrosDesc = std::move(macrosDesc);
 
         for (const auto& v : mMacrosDesc->getMacros())
             mSuggestions.push_back("#" + v);
@@ -497,6 +512,9 @@ void JsonMessageHandler::textDocument_completion(int32_t id)
 
 void JsonMessageHandler::completionItem_resolve(const rapidjson::Document& request)
 {
+    fetch_gCodesDesc();
+    fetch_mCodesDesc();
+
     rapidjson::Document d;
     d.SetObject();
     rapidjson::Document::AllocatorType& a = d.GetAllocator();
@@ -558,7 +576,7 @@ void JsonMessageHandler::completionItem_resolve(const rapidjson::Document& reque
                         desc  = it->second.second;
                     }
                 }
-                else if (label[0] == '#')
+                else if (label[0] == '#' && mMacrosDesc)
                 {
                     std::tie(title, desc) = mMacrosDesc->getDesc(label.substr(1));
                 }
@@ -694,7 +712,7 @@ void JsonMessageHandler::textDocument_hover(const rapidjson::Document& request)
             {
                 std::string code = extractCode(contents.substr(2));
 
-                auto macroId = static_cast<decltype(parser::fanuc::macro_map_key::id)>(std::stoi(code));
+                auto macroId = static_cast<decltype(parser::fanuc::macro_map_key::id)>(macroNumber(code));
 
                 auto itm = macroMap->lower_bound({macroId, line + 1});
                 if (itm != macroMap->cend() && itm->first.id == macroId)
@@ -725,7 +743,7 @@ void JsonMessageHandler::textDocument_hover(const rapidjson::Document& request)
                 }
                 else
                 {
-                    contents.clear();
+                    result.SetNull();
                 }
             }
             else
@@ -737,7 +755,7 @@ void JsonMessageHandler::textDocument_hover(const rapidjson::Document& request)
                 if (!contents.empty())
                 {
                     auto code    = extractCode(contents.substr(1));
-                    auto macroId = static_cast<decltype(parser::fanuc::macro_map_key::id)>(std::stoi(code));
+                    auto macroId = static_cast<decltype(parser::fanuc::macro_map_key::id)>(macroNumber(code));
 
                     bool exist{};
 
@@ -748,7 +766,8 @@ void JsonMessageHandler::textDocument_hover(const rapidjson::Document& request)
                         contents = contents + " = " + parser::to_string_trunc(it->second);
                     }
 
-                    auto [macroTitle, macroDesc] = mMacrosDesc->getDesc(code);
+                    auto [macroTitle, macroDesc] =
+                        mMacrosDesc ? mMacrosDesc->getDesc(code) : MacrosDescReader::MacroDescPair{};
                     if (not macroTitle.empty() or not macroDesc.empty())
                     {
                         exist    = true;
-- 
2.43.0


From 6275330c0cb084b351049d7a7acb50b5cfd6ae6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:13 +0000
Subject: [PATCH 09/84] fix: read message headers line by line and stop at the
 end of the input

The server spun forever once its standard input was closed, took a header
after Content-Length for the content, and dropped line breaks at the start
of the content from its length.
---
 nclangsrv/nclangsrv.cpp | 68 ++++++++++++-----------------------------
 1 file changed, 19 insertions(+), 49 deletions(-)

diff --git a/nclangsrv/nclangsrv.cpp b/nclangsrv/nclangsrv.cpp
index 1d25f86..3f5fe1c 100644
--- a/nclangsrv/nclangsrv.cpp
+++ b/nclangsrv/nclangsrv.cpp
@@ -102,62 +102,32 @@ int main(int argc, char* argv[])
     if (logger)
         LOGGER << __func__ << ": Current path is " << fs::current_path() << std::endl;
 
-    while (true)
-    {
-        using namespace std::chrono_literals;
-        std::this_thread::sleep_for(1ms);
-
-        char        c;
-        std::string str;
-
-        while (std::cin.get(c))
-        {
-            using namespace std::chrono_literals;
-            std::this_thread::sleep_for(1ms);
-            if (str.empty() and c != 'C')
-                continue;
-            str += c;
-            if (str == "Content-Length: ")
-                break;
-        }
-
-        if (str.empty())
-            continue;
+    const std::string content_length("Content-Length: ");
+    uint32_t          length{};
+    std::string       line;
 
-        str.clear();
+    // The header of a message ends with an empty line
+    while (std::getline(std::cin, line))
+    {
+        if (not line.empty() and line.back() == '\r')
+            line.pop_back();
 
-        while (std::cin.get(c))
+        const auto pos = line.find(content_length);
+        if (pos != std::string::npos)
         {
-            using namespace std::chrono_literals;
-            std::this_thread::sleep_for(1ms);
-            if (c == '\r' or c == '\n')
-                break;
-            str += c;
+            length = std::atoi(line.c_str() + pos + content_length.size());
+            if (logger)
+                LOGGER << __func__ << ": Content-Length: [" << line << "(" << line.size() << ")"
+                       << "], " << length << std::endl;
         }
 
-        uint32_t length = std::atoi(str.c_str());
-        if (logger)
-            LOGGER << __func__ << ": Content-Length: [" << str << "(" << str.size() << ")"
-                   << "], " << length << std::endl;
-        if (length == 0)
-        {
+        if (not line.empty() or length == 0)
             continue;
-        }
 
-        std::string buffer;
-        while (std::cin.get(c))
-        {
-            using namespace std::chrono_literals;
-            std::this_thread::sleep_for(1ms);
-            if (c == '\r' or c == '\n')
-                continue;
-            buffer += c;
-            break;
-        }
-        std::string tmp(length, '\0');
-        std::cin.read(&tmp[0], length - 1);
-        tmp.resize(std::cin.gcount());
-        buffer += tmp;
+        std::string buffer(length, '\0');
+        std::cin.read(&buffer[0], length);
+        buffer.resize(std::cin.gcount());
+        length = 0;
 
         if (logger)
             LOGGER << __func__ << ": " << buffer << std::endl;
-- 
2.43.0


From 7458ef4cf10cd64ef12bdef40919a267b3c13711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:13 +0000
Subject: [PATCH 10/84] fix: count a tab as one character in the column of an
 error

Editors count characters, so a diagnostic behind a tab was placed too far
to the right.
---
 parser/fanuc/AllAttributesParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/fanuc/AllAttributesParser.cpp b/parser/fanuc/AllAttributesParser.cpp
index 6ce089c..b8bebec 100644
--- a/parser/fanuc/AllAttributesParser.cpp
+++ b/parser/fanuc/AllAttributesParser.cpp
@@ -279,7 +279,7 @@ bool AllAttributesParser::parse(int line, std::string_view data, std::vector<Att
     {
         ret           = false;
         size_t line   = get_line(e.first);
-        size_t column = get_column(evaluated_code_part ? position_begin2 : position_begin, e.first);
+        size_t column = get_column(evaluated_code_part ? position_begin2 : position_begin, e.first, 1);
         message       = all_attr_grammar->get_message();
 
         std::stringstream msg;
@@ -352,7 +352,7 @@ bool AllAttributesParser::simple_parse(int line, std::string_view data, std::vec
     catch (const qi::expectation_failure<pos_iterator_type>& e)
     {
         size_t line   = get_line(e.first);
-        size_t column = get_column(pos_begin, e.first);
+        size_t column = get_column(pos_begin, e.first, 1);
         message       = all_attr_grammar->get_message();
 
         std::stringstream msg;
-- 
2.43.0


From 8e856726f336e42886776838de8f6e44de78ab64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:26 +0000
Subject: [PATCH 11/84] fix: let G20 and G21 select the address limits of the
 following blocks

The grammar kept the word limits of the units that were active when it was
built, so values were never verified against the limits of the other units.
---
 parser/fanuc/AllAttributesParser.cpp      |  4 ++--
 parser/fanuc/AllAttributesParserGrammar.h | 19 +++++++++++--------
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/parser/fanuc/AllAttributesParser.cpp b/parser/fanuc/AllAttributesParser.cpp
index b8bebec..4dd9ca2 100644
--- a/parser/fanuc/AllAttributesParser.cpp
+++ b/parser/fanuc/AllAttributesParser.cpp
@@ -66,7 +66,7 @@ AllAttributesParser::AllAttributesParser(FanucWordGrammar&& grammar, std::vector
     if (instantiateWithoutNCSettings)
     {
         all_attr_grammar = std::make_unique<all_attributes_grammar<pos_iterator_type>>(
-            *active_word_grammar, char_sym, decimal_sym, assignable_sym, other_settings.language);
+            active_word_grammar, char_sym, decimal_sym, assignable_sym, other_settings.language);
     }
 }
 
@@ -159,7 +159,7 @@ void AllAttributesParser::set_ncsettings(EMachineTool machine_tool, EMachineTool
                                                    kinematics, cnc_default_values, other_settings.language);
 
     all_attr_grammar = std::make_unique<all_attributes_grammar<pos_iterator_type>>(
-        *active_word_grammar, char_sym, decimal_sym, assignable_sym, other_settings.language);
+        active_word_grammar, char_sym, decimal_sym, assignable_sym, other_settings.language);
 }
 
 void AllAttributesParser::build_symbols()
diff --git a/parser/fanuc/AllAttributesParserGrammar.h b/parser/fanuc/AllAttributesParserGrammar.h
index 2260fac..65377f2 100644
--- a/parser/fanuc/AllAttributesParserGrammar.h
+++ b/parser/fanuc/AllAttributesParserGrammar.h
@@ -101,9 +101,11 @@ bool verify_range(const word_map& word_grammar, const AttributeData<std::string>
                   ELanguage language);
 
 template <typename T, typename U>
-bool verify_range(const word_map& word_grammar, const AttributeDataDecimal<T, U>& data, std::string& message,
+bool verify_range(const word_map* active_word_grammar, const AttributeDataDecimal<T, U>& data, std::string& message,
                   ELanguage language, status& st)
 {
+    const word_map& word_grammar = *active_word_grammar;
+
     if (data.open_bracket)
         st.open_bracket += static_cast<int>((*data.open_bracket).size());
 
@@ -320,7 +322,7 @@ template <typename Iterator, typename T>
 class optional_block_grammar : public qi::grammar<Iterator, DecimalAttributeData(), qi::blank_type>
 {
 public:
-    optional_block_grammar(const word_map& word_grammar, std::string& message, ELanguage language, status& st)
+    optional_block_grammar(const word_map* const& word_grammar, std::string& message, ELanguage language, status& st)
         : optional_block_grammar::base_type(start_optional_block)
     {
         digits      = +qi::char_("0-9"); // get_spirit_parser<DecimalAttributeData::type1>();
@@ -351,7 +353,8 @@ template <typename Iterator>
 class division_attribute_grammar : public qi::grammar<Iterator, DecimalAttributeData(), qi::blank_type>
 {
 public:
-    division_attribute_grammar(const word_map& word_grammar, std::string& message, ELanguage language, status& st)
+    division_attribute_grammar(const word_map* const& word_grammar, std::string& message, ELanguage language,
+                               status& st)
         : division_attribute_grammar::base_type(start_division_attribute)
     {
         digits      = +qi::char_("0-9"); // get_spirit_parser<DecimalAttributeData::type1>();
@@ -384,8 +387,8 @@ template <typename Iterator>
 class assignable_attribute_grammar : public qi::grammar<Iterator, DecimalAttributeData(), qi::blank_type>
 {
 public:
-    assignable_attribute_grammar(const word_map& word_grammar, const word_symbols& symbols, std::string& message,
-                                 ELanguage language, status& st)
+    assignable_attribute_grammar(const word_map* const& word_grammar, const word_symbols& symbols,
+                                 std::string& message, ELanguage language, status& st)
         : assignable_attribute_grammar::base_type(start_assignable_attribute)
     {
         digits      = +qi::char_("0-9"); // get_spirit_parser<DecimalAttributeData::type1>();
@@ -417,7 +420,7 @@ template <typename Iterator>
 class decimal_attribute_grammar : public qi::grammar<Iterator, DecimalAttributeData(), qi::blank_type>
 {
 public:
-    decimal_attribute_grammar(const word_map& word_grammar, const word_symbols& symbols,
+    decimal_attribute_grammar(const word_map* const& word_grammar, const word_symbols& symbols,
                               const word_symbols& assignable_symbols, std::string& message, ELanguage language,
                               status& st)
         : decimal_attribute_grammar::base_type(start_decimal_attribute)
@@ -453,8 +456,8 @@ template <typename Iterator>
 class all_attributes_grammar : public qi::grammar<Iterator, std::vector<AttributeVariant>(), qi::blank_type>
 {
 public:
-    all_attributes_grammar(const word_map& word_grammar, const word_symbols& char_sym, const word_symbols& decimal_sym,
-                           const word_symbols& assignable_sym, ELanguage language)
+    all_attributes_grammar(const word_map* const& word_grammar, const word_symbols& char_sym,
+                           const word_symbols& decimal_sym, const word_symbols& assignable_sym, ELanguage language)
         : all_attributes_grammar::base_type(line_attribute_vec)
         , char_eag_rule(char_sym)
         , optional_block_rule(word_grammar, message, language, st)
-- 
2.43.0


From a87b23f04ef4084931677ac2c6a4bca7b9358f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:51 +0000
Subject: [PATCH 12/84] fix: evaluate a block with macros like the block with
 their values

The '=' of an assignable address was lost, a sign before a macro with a
signed value made the block unparsable, and G20/G21 given by a macro changed
the units before instead of after the block.
---
 parser/fanuc/AllAttributesParser.cpp        | 2 --
 parser/fanuc/MacroEvaluatedCodeVerifier.cpp | 9 +++++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/parser/fanuc/AllAttributesParser.cpp b/parser/fanuc/AllAttributesParser.cpp
index 4dd9ca2..77a4ec7 100644
--- a/parser/fanuc/AllAttributesParser.cpp
+++ b/parser/fanuc/AllAttributesParser.cpp
@@ -241,8 +241,6 @@ bool AllAttributesParser::parse(int line, std::string_view data, std::vector<Att
             all_attr_grammar->clear_message();
             ret                     = qi::phrase_parse(iter2, position_end2, *all_attr_grammar, qi::blank, value2);
             evaluated_code_part     = false;
-
-            GrammarSelector()(word_grammar, active_word_grammar, value2);
         }
 
         SystemMacroAssigner()(macro_values, line, evaluated_code.empty() ? value : value2);
diff --git a/parser/fanuc/MacroEvaluatedCodeVerifier.cpp b/parser/fanuc/MacroEvaluatedCodeVerifier.cpp
index 2b8d21f..15be83b 100644
--- a/parser/fanuc/MacroEvaluatedCodeVerifier.cpp
+++ b/parser/fanuc/MacroEvaluatedCodeVerifier.cpp
@@ -40,7 +40,12 @@ public:
         }
 
         text += data.word;
-        if (data.sign)
+        if (data.assign)
+            text += *data.assign;
+        // the sign of a macro is applied to its value
+        const bool signed_macro =
+            was_interesting_word && data.sign && data.macro && data.value && !data.open_bracket;
+        if (data.sign && !signed_macro)
             text += *data.sign;
         if (data.open_bracket)
             text += *data.open_bracket;
@@ -52,7 +57,7 @@ public:
                 (macro_itor != std::end(macro_values) && macro_itor->first.id != val))
                 throw macro_evaluated_code_exception(
                     make_message(MessageName::MissingValue, language, "#" + *data.value));
-            text += to_string_trunc(macro_itor->second);
+            text += to_string_trunc(signed_macro && *data.sign == '-' ? 0 - macro_itor->second : macro_itor->second);
             was_modified = true;
         }
         else
-- 
2.43.0


From 896c857a6c9ef326de6fb409b5f9f90cc622cf8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:55 +0000
Subject: [PATCH 13/84] fix: do not keep a reference to a temporary programming
 type

The destructor that records the position after a tool exchange or a return to
the base point read a reference whose temporary was gone.
---
 parser/fanuc/AttributesPathCalculator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index 75460ec..17d2d61 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -390,7 +390,7 @@ private:
     word_range_map&                      wr;
     const std::vector<std::string>*      og;
     const int&                           g;
-    const EProgrammingType&              g9091;
+    const EProgrammingType               g9091;
 };
 
 AttributesPathCalculator::AttributesPathCalculator(EMachineTool machine_tool, EMachineToolType machine_tool_type,
-- 
2.43.0


From 9d957fdeaec12096bc635b4c5f60fd6793dc4d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:55 +0000
Subject: [PATCH 14/84] fix: report the missing Q of a peck drilling cycle

The presence of R was tested instead, and the missing Q was dereferenced.
---
 parser/fanuc/AttributesPathCalculator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index 17d2d61..2330c8b 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -1196,7 +1196,7 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
             if (dcq)
             {
                 const auto qit = values.find("Q");
-                if (rit == std::end(values))
+                if (qit == std::end(values))
                     throw path_calc_exception(make_message(MessageName::MissingValue, language, "Q"));
                 if (current_g9091 == EProgrammingType::Incremental)
                 {
-- 
2.43.0


From 7f6b73c7801216e997b7dc7f6fda9c5dfd652506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:35 +0000
Subject: [PATCH 15/84] fix: end a helix with any other motion and read Z only
 if given

An arc after a helix was still computed as a part of that helix, even with
other motions between them, and a turn without Z dereferenced the missing Z.
---
 parser/fanuc/AttributesPathCalculator.cpp | 28 +++++++++++++----------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index 2330c8b..bab9321 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -647,6 +647,9 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
         (machine_tool_type == EMachineToolType::Millturn && current_g171819 == EWorkPlane::XZ);
     const auto lathe_non_diameter = lathe_programming && !kinematics.diameter_programming_2x;
 
+    if (current_g != 2 && current_g != 3)
+        active_helix = EHelixType::None; // any other motion ends a helix
+
     if (current_g == 0 || current_g == 1)
     {
         // if(move_to_tool_exchange_point)
@@ -971,21 +974,22 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
 
             if (current_g9091 == EProgrammingType::Incremental)
             {
+                const auto z_curr = z ? *z : 0.;
                 if (active_helix == EHelixType::Full)
                 {
                     if ((!x || *x == 0.) && (!y || *y == 0.))
                     {
                         if (i && j)
-                            path_result.work_motion = gfunc_helix_incr(*z, *i, *j);
+                            path_result.work_motion = gfunc_helix_incr(z_curr, *i, *j);
                         else
-                            path_result.work_motion = gfunc_helix_r_incr(*z, *r);
+                            path_result.work_motion = gfunc_helix_r_incr(z_curr, *r);
                     }
                     else
                     {
                         if (i && j)
-                            path_result.work_motion = PathCalculator::G2G3_HelixLast(gfunc_helix_incr(*z, *i, *j));
+                            path_result.work_motion = PathCalculator::G2G3_HelixLast(gfunc_helix_incr(z_curr, *i, *j));
                         else
-                            path_result.work_motion = PathCalculator::G2G3_HelixLast(gfunc_helix_r_incr(*z, *r));
+                            path_result.work_motion = PathCalculator::G2G3_HelixLast(gfunc_helix_r_incr(z_curr, *r));
                         active_helix = EHelixType::None;
                     }
                 }
@@ -995,9 +999,9 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
                     {
                         first_helix_quarter_incr_block = false;
                         if (i && j)
-                            path_result.work_motion = gfunc_helix_quarter_incr(*z, *i, *j);
+                            path_result.work_motion = gfunc_helix_quarter_incr(z_curr, *i, *j);
                         else
-                            path_result.work_motion = gfunc_helix_quarter_r_incr(*z, *r);
+                            path_result.work_motion = gfunc_helix_quarter_r_incr(z_curr, *r);
                     }
                     else
                     {
@@ -1016,16 +1020,16 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
                     if (*x_prev == x_curr && *y_prev == y_curr)
                     {
                         if (i && j)
-                            path_result.work_motion = gfunc_helix(*z_prev, *z, *i, *j);
+                            path_result.work_motion = gfunc_helix(*z_prev, z_curr, *i, *j);
                         else
-                            path_result.work_motion = gfunc_helix_r(*z_prev, *z, *r);
+                            path_result.work_motion = gfunc_helix_r(*z_prev, z_curr, *r);
                     }
                     else
                     {
                         if (i && j)
-                            path_result.work_motion = PathCalculator::G2G3_HelixLast(gfunc_helix(*z_prev, *z, *i, *j));
+                            path_result.work_motion = PathCalculator::G2G3_HelixLast(gfunc_helix(*z_prev, z_curr, *i, *j));
                         else
-                            path_result.work_motion = PathCalculator::G2G3_HelixLast(gfunc_helix_r(*z_prev, *z, *r));
+                            path_result.work_motion = PathCalculator::G2G3_HelixLast(gfunc_helix_r(*z_prev, z_curr, *r));
                         active_helix = EHelixType::None;
                     }
                 }
@@ -1034,9 +1038,9 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
                     if (*x_prev != x_curr && *y_prev != y_curr && *z_prev != z_curr)
                     {
                         if (i && j)
-                            path_result.work_motion = gfunc_helix_quarter(*z_prev, *z, *i, *j);
+                            path_result.work_motion = gfunc_helix_quarter(*z_prev, z_curr, *i, *j);
                         else
-                            path_result.work_motion = gfunc_helix_quarter_r(*z_prev, *z, *r);
+                            path_result.work_motion = gfunc_helix_quarter_r(*z_prev, z_curr, *r);
                     }
                     else
                     {
-- 
2.43.0


From c8d5d34cc9ce0fba5ee9d54b26eb078b47f30018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:41 +0000
Subject: [PATCH 16/84] fix: keep the modal words of a block without motion

F, S, the plane, G90/G91, G94/G95, G96/G97 and G98/G99 were lost when they
stood alone in a block while an arc or a drilling cycle was active, together
with a preselected tool, or (F and S) before the first motion code.
---
 parser/fanuc/AttributesPathCalculator.cpp | 34 +++++++++++++++++------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index bab9321..f8544b7 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -510,6 +510,24 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
     if (was_pallet_exchange)
         time_result.total += kinematics.pallet_exchange_time;
 
+    // modal words are in force from their block on, even if that block moves nothing
+    const auto save_modal_words = [&] {
+        if (f)
+            active_f = *f;
+        if (s)
+            active_s = *s;
+        if (g171819)
+            active_g171819 = *g171819;
+        if (g_return)
+            active_g_return = *g_return;
+        if (g9091)
+            active_g9091 = *g9091;
+        if (g9697)
+            active_g9697 = *g9697;
+        if (feed_mode)
+            active_feed_mode = *feed_mode;
+    };
+
     if (t)
     {
         if (cnc_default_values.auto_rapid_traverse_after_tool_exchange)
@@ -566,6 +584,7 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
                 throw path_calc_exception(make_message(MessageName::TNotWithG, language, std::to_string(v)));
             }
 
+            save_modal_words();
             copy_on_return cr{
                 active_g,   active_g9091, values, prev_values,
                 word_range, &other_g}; // save axis in case the start values are provided together with tool change
@@ -600,14 +619,7 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
     {
         if (active_g == -1 && !g)
         {
-            if (g171819)
-                active_g171819 = *g171819;
-            if (g9091)
-                active_g9091 = *g9091;
-            if (g9697)
-                active_g9697 = *g9697;
-            if (g_return)
-                active_g_return = *g_return;
+            save_modal_words();
             copy_on_return cr{
                 active_g,   active_g9091, values, prev_values,
                 word_range, &other_g}; // save axis because here may be start values before any G code is being used
@@ -741,7 +753,10 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
     else if (current_g == 2 || current_g == 3)
     {
         if (!g && values.size() == 0) // seems nothing useful here
+        {
+            save_modal_words();
             return;
+        }
 
         if ((current_g == 2 && cnc_default_values.circular_interpolation_cw_cancel_cycle) ||
             (current_g == 3 && cnc_default_values.circular_interpolation_ccw_cancel_cycle))
@@ -1112,7 +1127,10 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
     else if (bool dc = false, dcq = false; (dc = is_drill_cycle(current_g)) || (dcq = is_drill_cycle_qparam(current_g)))
     {
         if (!g && values.size() == 0) // seems nothing useful here
+        {
+            save_modal_words();
             return;
+        }
 
         std::string axis1, axis2, axis3, axis_gleb;
         using fn_drill_cycle =
-- 
2.43.0


From 8bfa35de057183aa332d466dc2dfaa3c6e26d847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:57 +0000
Subject: [PATCH 17/84] fix: the time of a dwell is not a position

G4 X... in a modal motion or cycle moved the tool by the seconds of the dwell,
and spellings of the code with more zeros were not recognised.
---
 parser/fanuc/AttributesPathCalculator.cpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index f8544b7..5ebedd5 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -168,7 +168,7 @@ public:
                 active_g9091 = vale;
             else
             {
-                auto tmp = *data.value;
+                auto tmp = std::to_string(val); // G4, G04 and G004 are the same code
                 if (data.dot && data.value2)
                     tmp += *data.dot + *data.value2;
                 other_g.push_back(tmp);
@@ -490,7 +490,7 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
     const auto  g9697                = attributes_visitor.get_g9697();
     const auto  feed_mode            = attributes_visitor.get_feed_mode();
     const auto& other_g              = attributes_visitor.get_other_g();
-    const auto& values               = attributes_visitor.get_values();
+    auto        values               = attributes_visitor.get_values();
     const auto  was_m6               = attributes_visitor.was_m6();
     const auto  was_pallet_exchange  = attributes_visitor.was_pallet_exchange();
     const auto  was_tool_measurement = attributes_visitor.was_tool_measurement();
@@ -593,14 +593,16 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
     }
 
     if (std::find_if(std::cbegin(other_g), std::cend(other_g),
-                     [](const std::string& val) { return val == "04" || val == "4"; }) != std::cend(other_g))
+                     [](const std::string& val) { return val == "4"; }) != std::cend(other_g))
     {
-        if (const auto xit = values.find("X"); xit != std::cend(values))
-            time_result.total += xit->second;
-        if (const auto xit = values.find("U"); xit != std::cend(values))
-            time_result.total += xit->second;
-        if (const auto xit = values.find("P"); xit != std::cend(values))
-            time_result.total += xit->second;
+        for (const auto& address : {"X", "U", "P"})
+        {
+            if (const auto it = values.find(address); it != std::cend(values))
+            {
+                time_result.total += it->second;
+                values.erase(it); // the time of a dwell is not a position
+            }
+        }
     }
 
     if (std::find_if(std::cbegin(other_g), std::cend(other_g), [](const std::string& val) { return val == "28"; }) !=
-- 
2.43.0


From 7cffa6089867e2742b4e634f384fde7ff8780de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:04 +0000
Subject: [PATCH 18/84] fix: end a repeated incremental drilling cycle above
 the last hole

---
 parser/fanuc/AttributesPathCalculator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index 5ebedd5..0e35420 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -1292,6 +1292,9 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
                     path_result.work_motion += work_motion;
                     path_result.fast_motion += fast_motion;
                 }
+                for (const auto& axis : {axis1, axis2}) // the tool ends above the last hole
+                    if (const auto it = values.find(axis); it != std::end(values))
+                        it->second *= holes;
             }
             else
             {
-- 
2.43.0


From e7a5a9e4ea20fa117c64259984b84c2772bbaf26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:23 +0000
Subject: [PATCH 19/84] fix: keep the values of a drilling cycle modal

The depth of the first hole was used for all the holes, even if a later block
changed the depth, the R point, the peck or the cycle, and a repeated hole
needed all the values again.
---
 parser/fanuc/AttributesPathCalculator.cpp | 21 +++++++++++++--------
 parser/fanuc/AttributesPathCalculator.h   |  1 +
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index 0e35420..76b4acb 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -454,6 +454,7 @@ void AttributesPathCalculator::reset()
     active_feed_mode = cnc_default_values.default_feed_mode;
     active_helix     = EHelixType::None;
     active_t.clear();
+    cycle_values.clear();
     copy_on_return cr{active_g, active_g9091, machine_points_data.machine_base_point, prev_values, word_range};
 }
 
@@ -1199,8 +1200,12 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
         }
 
         const auto k = get_optional_value(values, "K");
-        if (path_result.hole_number == 0 || k) // we want to calculate this even though *k=0 or k is with G90 because
-                                               // the results may be needed in next blocks
+if (path_result.hole_number == 0)
+            cycle_values.clear();
+        for (const auto& param : {axis_gleb, std::string{"R"}, std::string{"Q"}})
+            if (const auto it = values.find(param); it != std::cend(values))
+                cycle_values[param] = it->second;
+
         {
             const bool zgleb_is_lathe_without_Y =
                 machine_tool == EMachineTool::lathe_zx ||
@@ -1209,18 +1214,18 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
             const auto zit_prev = prev_values.find(axis3);
             if (zit_prev == std::end(prev_values))
                 throw path_calc_exception(make_message(MessageName::MissingPreviousValue, language, axis3));
-            const auto zglebit = values.find(axis_gleb);
-            if (zglebit == std::end(values) && !zgleb_is_lathe_without_Y)
+            const auto zglebit = cycle_values.find(axis_gleb);
+            if (zglebit == std::end(cycle_values) && !zgleb_is_lathe_without_Y)
                 throw path_calc_exception(make_message(MessageName::MissingValue, language, axis_gleb + "gleb"));
-            const auto rit = values.find("R");
-            if (rit == std::end(values))
+            const auto rit = cycle_values.find("R");
+            if (rit == std::end(cycle_values))
                 throw path_calc_exception(make_message(MessageName::MissingValue, language, "R"));
 
             std::pair<double, double> ret;
             if (dcq)
             {
-                const auto qit = values.find("Q");
-                if (qit == std::end(values))
+                const auto qit = cycle_values.find("Q");
+                if (qit == std::end(cycle_values))
                     throw path_calc_exception(make_message(MessageName::MissingValue, language, "Q"));
                 if (current_g9091 == EProgrammingType::Incremental)
                 {
diff --git a/parser/fanuc/AttributesPathCalculator.h b/parser/fanuc/AttributesPathCalculator.h
index 6bfbb4e..b405d4b 100644
--- a/parser/fanuc/AttributesPathCalculator.h
+++ b/parser/fanuc/AttributesPathCalculator.h
@@ -97,6 +97,7 @@ private:
     EConstantSurfaceSpeedControl  active_g9697{};
     EFeedMode                     active_feed_mode{};
     EHelixType                    active_helix{};
+    std::map<std::string, double> cycle_values; // Z, R and Q in force in the active drilling cycle
     std::string                   active_t;
     bool                          active_auto_rapid_traverse_after_tool_exchange{};
 #ifdef _MSC_VER
-- 
2.43.0


From 711bde32919862ef81a2b33d0f1d2c766657f1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:56 +0000
Subject: [PATCH 20/84] fix: the depth axis of a drilling cycle depends on the
 plane

In G18 and G19 the depth of the cycle was saved as the position of the tool,
and the position of the hole on Z was not.
---
 parser/fanuc/AttributesPathCalculator.cpp | 24 ++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index 76b4acb..ed7926f 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -312,7 +312,7 @@ auto get_ignore_g_codes()
 
 struct copy_on_return
 {
-    copy_on_return(const int& active_g, const EProgrammingType& active_g9091,
+    copy_on_return(const int& active_g, const EWorkPlane& active_g171819, const EProgrammingType& active_g9091,
                    const std::map<std::string, double>& values, std::map<std::string, double>& prev_values,
                    word_range_map& word_range, const std::vector<std::string>* other_g = nullptr)
         : v(values)
@@ -320,6 +320,7 @@ struct copy_on_return
         , wr(word_range)
         , og(other_g)
         , g(active_g)
+        , depth_axis(active_g171819 == EWorkPlane::XY ? "Z" : active_g171819 == EWorkPlane::XZ ? "Y" : "X")
         , g9091(active_g9091)
     {
     }
@@ -328,7 +329,7 @@ struct copy_on_return
     {
         for (const auto& it : v)
         {
-            if (it.first == "Z" && (is_drill_cycle(g) || is_drill_cycle_qparam(g)))
+            if (it.first == depth_axis && (is_drill_cycle(g) || is_drill_cycle_qparam(g)))
                 continue;
             if (it.first == "Q" || it.first == "L")
                 continue;
@@ -390,6 +391,7 @@ private:
     word_range_map&                      wr;
     const std::vector<std::string>*      og;
     const int&                           g;
+    const std::string_view               depth_axis; // of a drilling cycle in the active plane
     const EProgrammingType               g9091;
 };
 
@@ -409,7 +411,7 @@ AttributesPathCalculator::AttributesPathCalculator(EMachineTool machine_tool, EM
     , active_g9091(this->cnc_default_values.default_programming)
     , active_feed_mode(this->cnc_default_values.default_feed_mode)
 {
-    copy_on_return cr{active_g, active_g9091, machine_points_data.machine_base_point, prev_values, word_range};
+    copy_on_return cr{active_g, active_g171819, active_g9091, machine_points_data.machine_base_point, prev_values, word_range};
     for (const auto& it : kinematics.cartesian_system_axis)
         gcode_params.insert(it.first);
 }
@@ -431,7 +433,7 @@ AttributesPathCalculator::AttributesPathCalculator(EMachineTool machine_tool, EM
     , active_g9091(this->cnc_default_values.default_programming)
     , active_feed_mode(this->cnc_default_values.default_feed_mode)
 {
-    copy_on_return cr{active_g, active_g9091, machine_points_data.machine_base_point, prev_values, word_range};
+    copy_on_return cr{active_g, active_g171819, active_g9091, machine_points_data.machine_base_point, prev_values, word_range};
     for (const auto& it : kinematics.cartesian_system_axis)
         gcode_params.insert(it.first);
 }
@@ -455,7 +457,7 @@ void AttributesPathCalculator::reset()
     active_helix     = EHelixType::None;
     active_t.clear();
     cycle_values.clear();
-    copy_on_return cr{active_g, active_g9091, machine_points_data.machine_base_point, prev_values, word_range};
+    copy_on_return cr{active_g, active_g171819, active_g9091, machine_points_data.machine_base_point, prev_values, word_range};
 }
 
 template <typename T, typename U>
@@ -587,7 +589,7 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
 
             save_modal_words();
             copy_on_return cr{
-                active_g,   active_g9091, values, prev_values,
+                active_g, active_g171819,   active_g9091, values, prev_values,
                 word_range, &other_g}; // save axis in case the start values are provided together with tool change
             return;
         }
@@ -624,7 +626,7 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
         {
             save_modal_words();
             copy_on_return cr{
-                active_g,   active_g9091, values, prev_values,
+                active_g, active_g171819,   active_g9091, values, prev_values,
                 word_range, &other_g}; // save axis because here may be start values before any G code is being used
             return;
         }
@@ -641,7 +643,7 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
                 active_g9697 = *g9697;
             if(g_return)
                 active_g_return = *g_return;
-            copy_on_return cr{active_g, active_g9091, values, prev_values, word_range, other_g}; // save axis because
+            copy_on_return cr{active_g, active_g171819, active_g9091, values, prev_values, word_range, other_g}; // save axis because
         here may be start values together with other irrelevant G codes return; // skip other G codes and their axis
         values
         }*/
@@ -1376,14 +1378,14 @@ if (path_result.hole_number == 0)
 
     if (move_to_tool_exchange_point)
         copy_on_return cr{
-            active_g, EProgrammingType::Absolute, machine_points_data.tool_exchange_point, prev_values, word_range,
+            active_g, active_g171819, EProgrammingType::Absolute, machine_points_data.tool_exchange_point, prev_values, word_range,
             &other_g};
     else if (move_to_machine_base_point)
         copy_on_return cr{
-            active_g, EProgrammingType::Absolute, machine_points_data.machine_base_point, prev_values, word_range,
+            active_g, active_g171819, EProgrammingType::Absolute, machine_points_data.machine_base_point, prev_values, word_range,
             &other_g};
     else
-        copy_on_return cr{active_g, active_g9091, values, prev_values, word_range, &other_g};
+        copy_on_return cr{active_g, active_g171819, active_g9091, values, prev_values, word_range, &other_g};
 }
 
 } // namespace fanuc
-- 
2.43.0


From f7a53c72aef3cc49bb86da71281866dd644f404d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:38 +0000
Subject: [PATCH 21/84] fix: measure the drilling cycle from the levels,
 whatever their signs

The rapid part was wrong if R was negative or all the levels were on one side
of zero.
---
 parser/fanuc/AttributesPathCalculator.cpp |  2 +-
 parser/fanuc/PathCalculator.cpp           | 46 +++--------------------
 2 files changed, 6 insertions(+), 42 deletions(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index ed7926f..c9d989f 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -1202,7 +1202,7 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
         }
 
         const auto k = get_optional_value(values, "K");
-if (path_result.hole_number == 0)
+        if (path_result.hole_number == 0)
             cycle_values.clear();
         for (const auto& param : {axis_gleb, std::string{"R"}, std::string{"Q"}})
             if (const auto it = values.find(param); it != std::cend(values))
diff --git a/parser/fanuc/PathCalculator.cpp b/parser/fanuc/PathCalculator.cpp
index 7124b55..cdf5c5d 100644
--- a/parser/fanuc/PathCalculator.cpp
+++ b/parser/fanuc/PathCalculator.cpp
@@ -430,47 +430,11 @@ std::pair<double, double> PathCalculator::DrillCyclePath_G17(double Zpre, double
         }
         else
         {
-            if (GreturnMode == EDrillGreturnMode::G98)
-            {
-                /*if(Zpre == Zgleb)// check doubles using substraction, this check can be useful to warn user that is
-                doing something stupid
-                {
-                    return std::make_pair(0.,0.); // this probably should be replaced by normal calculation below
-                }
-                else */
-                if (Zpre > 0 && Zgleb < 0)
-                {
-                    auto Cycle_distance_Linear = Rparam + std::abs(Zgleb);
-                    auto Cycle_distance_Rapid  = std::abs(Zpre) - std::abs(Rparam) + std::abs(Zpre) + std::abs(Zgleb);
-                    return std::make_pair(std::abs(Cycle_distance_Linear), std::abs(Cycle_distance_Rapid));
-                }
-                else
-                {
-                    auto Cycle_distance_Linear = std::abs(Rparam) - std::abs(Zgleb);
-                    auto Cycle_distance_Rapid  = std::abs(Zpre) - std::abs(Rparam) + std::abs(Zpre) - std::abs(Zgleb);
-                    return std::make_pair(std::abs(Cycle_distance_Linear), std::abs(Cycle_distance_Rapid));
-                }
-            }
-            else if (GreturnMode == EDrillGreturnMode::G99)
-            {
-                /*if(Zpre == Zgleb)
-                {
-                    return std::make_pair(0.,0.);
-                }
-                else */
-                if (Zpre > 0 && Zgleb < 0)
-                {
-                    auto Cycle_distance_Linear = Rparam + std::abs(Zgleb);
-                    auto Cycle_distance_Rapid  = std::abs(Zpre) + std::abs(Zgleb);
-                    return std::make_pair(Cycle_distance_Linear, Cycle_distance_Rapid);
-                }
-                else
-                {
-                    auto Cycle_distance_Linear = std::abs(Rparam) - std::abs(Zgleb);
-                    auto Cycle_distance_Rapid  = std::abs(Zpre) - std::abs(Zgleb);
-                    return std::make_pair(std::abs(Cycle_distance_Linear), std::abs(Cycle_distance_Rapid));
-                }
-            }
+            // down from Zpre to R, and back up from Zgleb to Zpre (G98) or to R (G99)
+            const auto Cycle_distance_Linear = std::abs(Rparam - Zgleb);
+            const auto Cycle_distance_Rapid =
+                GreturnMode == EDrillGreturnMode::G98 ? std::abs(Zpre - Rparam + Zpre - Zgleb) : std::abs(Zpre - Zgleb);
+            return std::make_pair(Cycle_distance_Linear, Cycle_distance_Rapid);
         }
     }
     else if (Gmode == EDrillGmode::G74 || Gmode == EDrillGmode::G84)
-- 
2.43.0


From bae55c41b9051e99b8f857caff7e12bc39501dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:44 +0000
Subject: [PATCH 22/84] fix: do not truncate lengths to integers in the arc
 formulas

abs() of the C library took the differences as integers, so an arc whose ends
are closer than 1 was measured as a full circle and one with a radius below
0.5 as its radius.
---
 parser/fanuc/PathCalculator.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/parser/fanuc/PathCalculator.cpp b/parser/fanuc/PathCalculator.cpp
index cdf5c5d..dbe8034 100644
--- a/parser/fanuc/PathCalculator.cpp
+++ b/parser/fanuc/PathCalculator.cpp
@@ -33,7 +33,7 @@ double PathCalculator::G17(double Xpre, double Ypre, double Xcur, double Ycur, d
     // Warunek: jesli Semicircle = Rarcradius to luk ma 180stopni i dlugosc jego wynosi promien
     double tolerance = 1e-8;
     double Arclong{};
-    if (abs(Semicircle - Rarcradius) < tolerance)
+    if (std::abs(Semicircle - Rarcradius) < tolerance)
     {
         Arclong = Rarcradius;
     }
@@ -137,7 +137,7 @@ double PathCalculator::G17(double Xpre, double Ypre, double Xcur, double Ycur, d
             AlphaArc = 360 - AlphaArc;
 
         // 9. Sprawdzenie czy jest pelny okrąg. Jesli tak to obliczamy pelny obwod okregu i kat 360 stopni
-        if (abs(Xpre - Xcur) < tolerance && abs(Ypre - Ycur) < tolerance)
+        if (std::abs(Xpre - Xcur) < tolerance && std::abs(Ypre - Ycur) < tolerance)
             AlphaArc = 360;
 
         // 10. Obliczenie dlugosci luku
@@ -160,7 +160,7 @@ double PathCalculator::G17(double Xpre, double Ypre, double Xcur, double Ycur, d
     auto ABhalf = (AB / 2);
 
     // 3. Obliczenie promienia R luku i w przypadku wartosci ujemnej (kat wiekszy niz 180 stopni) modul z liczby
-    auto Rarcradius = abs(Rcur);
+    auto Rarcradius = std::abs(Rcur);
 
     // 4. Obliczenie polowy okregu dla danego luku
     auto Semicircle = (2 * M_PI * Rarcradius) / 2;
@@ -168,7 +168,7 @@ double PathCalculator::G17(double Xpre, double Ypre, double Xcur, double Ycur, d
     // Warunek: jesli Semicircle = Rarcradius to luk ma 180stopni i dlugosc jego wynosi promien
     double tolerance = 1e-8;
     double Arclong{};
-    if (abs(Semicircle - Rarcradius) < tolerance)
+    if (std::abs(Semicircle - Rarcradius) < tolerance)
     {
         Arclong = Rarcradius;
     }
@@ -190,7 +190,7 @@ double PathCalculator::G17(double Xpre, double Ypre, double Xcur, double Ycur, d
 
         // 9. Sprawdzenie czy jest pelny okrąg. Jesli tak to obliczamy pelna obwod okregu i kat 360 stopni
 
-        if (abs(Xpre - Xcur) < tolerance && abs(Ypre - Ycur) < tolerance)
+        if (std::abs(Xpre - Xcur) < tolerance && std::abs(Ypre - Ycur) < tolerance)
             AlphaArc = 360;
 
         // 10. Obliczenie dlugosci luku
@@ -217,7 +217,7 @@ double PathCalculator::G17(double Xcur, double Ycur, double Icur, double Jcur, i
     // Warunek: jesli Semicircle = Rarcradius to luk ma 180stopni i dlugosc jego wynosi promien
     double tolerance = 1e-8;
     double Arclong{};
-    if (abs(Semicircle - Rarcradius) < tolerance)
+    if (std::abs(Semicircle - Rarcradius) < tolerance)
         Arclong = Rarcradius;
 
     // Sprawdzenie czy jest pelny okrąg. Jesli tak to obliczamy pelna obwod okregu i kat 360 stopni
@@ -267,7 +267,7 @@ double PathCalculator::G17(double Xcur, double Ycur, double Rcur)
     const auto AB = MathUtils::CalcLineLength2d(Xcur, Ycur);
 
     // Obliczenie promienia R luku
-    const auto Rarcradius = abs(Rcur);
+    const auto Rarcradius = std::abs(Rcur);
 
     // Obliczenie polowy cieciwy
     const auto ABhalf = (AB / 2);
@@ -278,7 +278,7 @@ double PathCalculator::G17(double Xcur, double Ycur, double Rcur)
     // Warunek: jesli Semicircle = Rarcradius to luk ma 180stopni i dlugosc jego wynosi promien
     const double tolerance = 1e-8;
     double       Arclong{};
-    if (abs(Semicircle - Rarcradius) < tolerance)
+    if (std::abs(Semicircle - Rarcradius) < tolerance)
         Arclong = Rarcradius;
 
     // Sprawdzenie czy jest pelny okrąg. Jesli tak to obliczamy pelna obwod okregu i kat 360 stopni
-- 
2.43.0


From a728957412a5d0c003eaf2c5acdfb09db223df4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:51 +0000
Subject: [PATCH 23/84] fix: measure arcs longer than 180 degrees wherever they
 start and end

An arc was taken for the short one if it started or ended on an axis of its
circle or did both in the same quadrant, and G2 and G3 were swapped in G18.
---
 parser/fanuc/PathCalculator.cpp | 69 +++------------------------------
 parser/fanuc/PathCalculator.h   |  3 +-
 2 files changed, 7 insertions(+), 65 deletions(-)

diff --git a/parser/fanuc/PathCalculator.cpp b/parser/fanuc/PathCalculator.cpp
index dbe8034..8db8be0 100644
--- a/parser/fanuc/PathCalculator.cpp
+++ b/parser/fanuc/PathCalculator.cpp
@@ -67,70 +67,11 @@ double PathCalculator::G17(double Xpre, double Ypre, double Xcur, double Ycur, d
             CurtempY = Ycur;
         }
 
-        // Sprawdzenie do której cwiartki nalezy punkt poprzedni
-        // Utworzenie grupy cwiartek poprzednich Prev
-        int Prev{};
-        if (PretempX > 0 && PretempY > 0)
-            Prev = 1;
-        else if (PretempX < 0 && PretempY < 0)
-            Prev = 3;
-        else if (PretempX > 0 && PretempY < 0)
-            Prev = 4;
-        else if (PretempX < 0 && PretempY > 0)
-            Prev = 2;
-
-        // Sprawdzenie do ktorej cwiartki nalezy punkt biezacy
-        // Utworzenie grup cwiartek biezacych Curr
-        int Curr{};
-        if (CurtempX > 0 && CurtempY > 0)
-            Curr = 1;
-        else if (CurtempX < 0 && CurtempY < 0)
-            Curr = 3;
-        else if (CurtempX > 0 && CurtempY < 0)
-            Curr = 4;
-        else if (CurtempX < 0 && CurtempY > 0)
-            Curr = 2;
-
-        // Sprawdzenie czy luk przechodzi przez 4 cwiartki
-        bool longArc{};
-        if (Direction_CW_CCW == 3)
-        {
-            if ((Prev == 1 && Curr == 4) || (Prev == 2 && Curr == 1) || (Prev == 3 && Curr == 2) ||
-                (Prev == 4 && Curr == 3))
-            {
-                longArc = true;
-            }
-        }
-        else if (Direction_CW_CCW == 2)
-        {
-            if ((Prev == 4 && Curr == 1) || (Prev == 1 && Curr == 2) || (Prev == 2 && Curr == 3) ||
-                (Prev == 3 && Curr == 4))
-            {
-                longArc = true;
-            }
-        }
-
-        // Sprawdzanie czy luk przechodzac przez 3 cwiartki jest wiekszy niz 180 stopni
-        // Najpierw obliczenie tg dla punktow poprzednich i biezacych
-        auto tg_p = atan(PretempY / PretempX) * Deg;
-        auto tg_c = atan(CurtempY / CurtempX) * Deg;
-
-        if (Direction_CW_CCW == 3)
-        {
-            if ((Prev == 1 && Curr == 3 && tg_c > tg_p) || (Prev == 3 && Curr == 1 && tg_c > tg_p) ||
-                (Prev == 2 && Curr == 4 && tg_c > tg_p) || (Prev == 4 && Curr == 2 && tg_c > tg_p))
-            {
-                longArc = true;
-            }
-        }
-        else if (Direction_CW_CCW == 2)
-        {
-            if ((Prev == 1 && Curr == 3 && tg_c < tg_p) || (Prev == 3 && Curr == 1 && tg_c < tg_p) ||
-                (Prev == 2 && Curr == 4 && tg_c < tg_p) || (Prev == 4 && Curr == 2 && tg_c < tg_p))
-            {
-                longArc = true;
-            }
-        }
+        // Iloczyn wektorowy promieni punktow poprzedniego i biezacego: dodatni, jesli punkt biezacy lezy mniej niz 180
+        // stopni dalej w kierunku CCW. Kierunek nie jest okreslony, jesli punkt biezacy nie lezy na okregu.
+        const auto cross         = PretempX * CurtempY - PretempY * CurtempX;
+        const bool end_on_circle = std::abs(MathUtils::CalcLineLength2d(CurtempX, CurtempY) - Rarcradius) <= 0.01 * Rarcradius;
+        const bool longArc       = end_on_circle && (Direction_CW_CCW == 3 ? cross < 0 : cross > 0);
 
         // Jesli luk jest wiekszy niz 180 stopni
         if (longArc)
diff --git a/parser/fanuc/PathCalculator.h b/parser/fanuc/PathCalculator.h
index 82d9b28..94515e8 100644
--- a/parser/fanuc/PathCalculator.h
+++ b/parser/fanuc/PathCalculator.h
@@ -355,7 +355,8 @@ private:
     static double G18(double Xpre, double Zpre, double Xcur, double Zcur, double Icur, double Kcur,
                       int Direction_CW_CCW)
     {
-        return G17(Xpre, Zpre, Xcur, Zcur, Icur, Kcur, Direction_CW_CCW);
+        // the first axis of this plane is Z, so the direction is opposite in (X, Z)
+        return G17(Xpre, Zpre, Xcur, Zcur, Icur, Kcur, Direction_CW_CCW == 2 ? 3 : 2);
     }
 
     static double G18(double Xcur, double Zcur, double Icur, double Kcur, int Direction_CW_CCW)
-- 
2.43.0


From 243ca558d50b882ed7720f363b8df170449db1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:38 +0000
Subject: [PATCH 24/84] fix: a reset also forgets a pending rapid traverse
 after a tool exchange

---
 parser/fanuc/AttributesPathCalculator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index c9d989f..2ac81c6 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -457,6 +457,7 @@ void AttributesPathCalculator::reset()
     active_helix     = EHelixType::None;
     active_t.clear();
     cycle_values.clear();
+    active_auto_rapid_traverse_after_tool_exchange = false;
     copy_on_return cr{active_g, active_g171819, active_g9091, machine_points_data.machine_base_point, prev_values, word_range};
 }
 
-- 
2.43.0


From b42998152c9ecf0309c33d290edd9f8ae8140828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:48 +0000
Subject: [PATCH 25/84] fix: MOD by zero does not crash

---
 parser/fanuc/ValueCalculator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/fanuc/ValueCalculator.cpp b/parser/fanuc/ValueCalculator.cpp
index a1e74e6..b2f96da 100644
--- a/parser/fanuc/ValueCalculator.cpp
+++ b/parser/fanuc/ValueCalculator.cpp
@@ -240,7 +240,7 @@ public:
         else if (x.operator_name == "XOR")
             return static_cast<int>(lhs) ^ static_cast<int>(rhs);
         else if (x.operator_name == "MOD")
-            return static_cast<int>(lhs) % static_cast<int>(rhs);
+            return std::fmod(std::trunc(lhs), std::trunc(rhs)); // not a number, instead of a crash, if rhs is 0
 
         // BOOST_ASSERT(0);
         // return 0;
-- 
2.43.0


From f2ee289a59616a1b54bdbe6320436a1a6a2e0998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:01 +0000
Subject: [PATCH 26/84] fix: do not count the motion before an empty line twice
 when splitting

---
 parser/fanuc/AllAttributesParser.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parser/fanuc/AllAttributesParser.cpp b/parser/fanuc/AllAttributesParser.cpp
index 77a4ec7..bdf8754 100644
--- a/parser/fanuc/AllAttributesParser.cpp
+++ b/parser/fanuc/AllAttributesParser.cpp
@@ -505,10 +505,11 @@ bool AllAttributesParser::split_file(std::vector<std::string>&&
                 if (!tmp.empty() && !parse(x, data[x], v, message, single_line_msg, {true, false, true}))
                     return false;
                 vtmp.emplace_back(std::move(v));
+                // nothing moves in an empty line: the results are still those of the previous one
                 if (file_splitting.type == FileSplittingType::work_motion_path)
-                    vec_path_result.push_back(attr_path_calc->get_path_result());
+                    vec_path_result.push_back(tmp.empty() ? PathResult{} : attr_path_calc->get_path_result());
                 else
-                    vec_time_result.push_back(attr_path_calc->get_time_result());
+                    vec_time_result.push_back(tmp.empty() ? TimeResult{} : attr_path_calc->get_time_result());
             }
 
             std::vector<AttributeVariant> retraction_plane;
-- 
2.43.0


From 310957f8adc74b3b3d95bd75452b50cad99360cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:12 +0000
Subject: [PATCH 27/84] fix: report wrong splitting parameters instead of
 letting the exception out

---
 parser/fanuc/AllAttributesParser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/fanuc/AllAttributesParser.cpp b/parser/fanuc/AllAttributesParser.cpp
index bdf8754..5791eaa 100644
--- a/parser/fanuc/AllAttributesParser.cpp
+++ b/parser/fanuc/AllAttributesParser.cpp
@@ -559,6 +559,11 @@ bool AllAttributesParser::split_file(std::vector<std::string>&&
                     renumberer.renumber(y, rs);
         }
     }
+    catch (const file_splitter_exception& e)
+    {
+        message = e.what();
+        return false;
+    }
     catch (const std::out_of_range& e)
     {
         message = e.what();
-- 
2.43.0


From 2aa22bfe457676a69354ce335539bfdfb51d2b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:16 +0000
Subject: [PATCH 28/84] fix: rotate arcs written as G02 and G03 like those
 written as G2 and G3

---
 parser/fanuc/AxesRotator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser/fanuc/AxesRotator.cpp b/parser/fanuc/AxesRotator.cpp
index a11b8f0..133542e 100644
--- a/parser/fanuc/AxesRotator.cpp
+++ b/parser/fanuc/AxesRotator.cpp
@@ -195,6 +195,8 @@ public:
                 return;
 
             auto& val = *data.value;
+            if (val == "02" || val == "03")
+                val.erase(0, 1); // G02 and G03 are G2 and G3
             if (!(val == "17" || val == "18" || val == "19" || val == "2" || val == "3"))
                 return;
 
-- 
2.43.0


From 67324527486a07c5d0aafd6157b677094ba67a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:45 +0000
Subject: [PATCH 29/84] fix: choosing the first tool in advance keeps the
 totals

A T word that exchanges nothing cleared the totals counted without a tool.
---
 parser/fanuc/AttributesPathCalculator.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index 2ac81c6..80d53a3 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -537,11 +537,8 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
         if (cnc_default_values.auto_rapid_traverse_after_tool_exchange)
             active_auto_rapid_traverse_after_tool_exchange = true;
 
-        if (!active_t.empty())
-        {
-            t_path[active_t] = path_result.tool_total;
-            t_time[active_t] = time_result.tool_total;
-        }
+        t_path[active_t] = path_result.tool_total;
+        t_time[active_t] = time_result.tool_total;
 
         if (cnc_default_values.tool_number_executes_exchange ||
             (!cnc_default_values.tool_number_executes_exchange && was_m6))
-- 
2.43.0


From f8889aed83db77323e623bf1d069e93b729754b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:51 +0000
Subject: [PATCH 30/84] fix: incremental moves of rotary axes accumulate

The position of A, B and C after G91 was the last distance, so moves out of
their range went unreported.
---
 parser/fanuc/AttributesPathCalculator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index 80d53a3..ffa5e6e 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -347,7 +347,9 @@ struct copy_on_return
                 }
             }
 
-            if (g9091 == EProgrammingType::Incremental && (it.first == "X" || it.first == "Y" || it.first == "Z"))
+            if (g9091 == EProgrammingType::Incremental &&
+                (it.first == "X" || it.first == "Y" || it.first == "Z" || it.first == "A" || it.first == "B" ||
+                 it.first == "C"))
             {
                 if (auto writ = wr.find(it.first); writ != std::end(wr))
                 {
-- 
2.43.0


From 64f0520bab59f63f8170df8da621d5391187a62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:58 +0000
Subject: [PATCH 31/84] fix: save the position before reporting a missing feed
 or speed

The path of the block was counted but its end point forgotten, so the next
block was measured from the wrong position.
---
 parser/fanuc/AttributesPathCalculator.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index ffa5e6e..420547b 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -1366,16 +1366,6 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
     time_result.tool_total += time_result.work_motion + time_result.fast_motion;
     time_result.total += time_result.work_motion + time_result.fast_motion;
 
-    if (path_result.work_motion != 0.0 && active_f < 0.0)
-        throw path_calc_exception(make_message(MessageName::ValueNotSet, language, "F"));
-    if (path_result.fast_motion != 0.0 && kinematics.max_fast_feed < 0.0)
-        throw path_calc_exception(make_message(MessageName::ValueNotSet, language, "Fast Feed"));
-
-    if (path_result.work_motion != 0.0 && active_f > 0.0)
-        if (lathe_programming && current_feed_mode == EFeedMode::PerRevolution)
-            if (active_s < 0.0)
-                throw path_calc_exception(make_message(MessageName::ValueNotSet, language, "S"));
-
     if (move_to_tool_exchange_point)
         copy_on_return cr{
             active_g, active_g171819, EProgrammingType::Absolute, machine_points_data.tool_exchange_point, prev_values, word_range,
@@ -1386,6 +1376,16 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
             &other_g};
     else
         copy_on_return cr{active_g, active_g171819, active_g9091, values, prev_values, word_range, &other_g};
+
+    if (path_result.work_motion != 0.0 && active_f < 0.0)
+        throw path_calc_exception(make_message(MessageName::ValueNotSet, language, "F"));
+    if (path_result.fast_motion != 0.0 && kinematics.max_fast_feed < 0.0)
+        throw path_calc_exception(make_message(MessageName::ValueNotSet, language, "Fast Feed"));
+
+    if (path_result.work_motion != 0.0 && active_f > 0.0)
+        if (lathe_programming && current_feed_mode == EFeedMode::PerRevolution)
+            if (active_s < 0.0)
+                throw path_calc_exception(make_message(MessageName::ValueNotSet, language, "S"));
 }
 
 } // namespace fanuc
-- 
2.43.0


From b611b29fdfc78961beb3114f80dabded24ab2d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:19 +0000
Subject: [PATCH 32/84] fix: no negative or infinite time without a spindle
 speed

Feed per revolution without S added a negative time (-1 stands for not set) and
with S0 an infinite one to the totals.
---
 parser/fanuc/AttributesPathCalculator.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index 420547b..609820f 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -1340,7 +1340,11 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
         if (lathe_programming &&
             current_feed_mode == EFeedMode::PerRevolution /*&& current_g_return == EDrillGreturnMode::G99*/)
         {
-            if (current_g9697 == EConstantSurfaceSpeedControl::G96)
+            if (active_s <= 0.0)
+            {
+                // no time without rotation; a speed not set at all is reported below
+            }
+            else if (current_g9697 == EConstantSurfaceSpeedControl::G96)
             {
                 double rpm{};
                 if (units == EDriverUnits::Inch)
-- 
2.43.0


From 1959a3155d0bd0712b3431c9e35cb167a0b3dd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:30 +0000
Subject: [PATCH 33/84] fix: the words of G10, G52, G68, G92 and the like do
 not move the tool

Their distance was added to the path although the position stayed.
---
 parser/fanuc/AttributesPathCalculator.cpp | 37 +++++++++++++++--------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index 609820f..88ee559 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -310,6 +310,20 @@ auto get_ignore_g_codes()
     return ignore_g_codes;
 }
 
+bool is_word_of_other_code(std::string_view word, const std::vector<std::string>& other_g,
+                           std::string_view except_code = {})
+{
+    static const auto ignore_g_codes = get_ignore_g_codes();
+
+    const auto codes = ignore_g_codes.find(word);
+    if (codes == std::cend(ignore_g_codes))
+        return false;
+    return std::any_of(std::cbegin(codes->second), std::cend(codes->second), [&](auto code) {
+        return code != except_code && std::any_of(std::cbegin(other_g), std::cend(other_g),
+                                                  [code](const auto& og_value) { return og_value == code; });
+    });
+}
+
 struct copy_on_return
 {
     copy_on_return(const int& active_g, const EWorkPlane& active_g171819, const EProgrammingType& active_g9091,
@@ -334,18 +348,8 @@ struct copy_on_return
             if (it.first == "Q" || it.first == "L")
                 continue;
 
-            if (og && !og->empty())
-            {
-                const auto& ignore_g_codes = get_ignore_g_codes();
-                if (const auto& axis = ignore_g_codes.find(it.first); axis != std::cend(ignore_g_codes))
-                {
-                    if (std::any_of(std::cbegin(axis->second), std::cend(axis->second), [&](const auto& axis_value) {
-                            return std::any_of(std::cbegin(*og), std::cend(*og),
-                                               [&](const auto& og_value) { return og_value == axis_value; });
-                        }))
-                        continue;
-                }
-            }
+            if (og && is_word_of_other_code(it.first, *og))
+                continue;
 
             if (g9091 == EProgrammingType::Incremental &&
                 (it.first == "X" || it.first == "Y" || it.first == "Z" || it.first == "A" || it.first == "B" ||
@@ -608,6 +612,15 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
         }
     }
 
+    // the words of G10, G52, G92 and the like set something but do not move the tool
+    for (auto it = std::begin(values); it != std::end(values);)
+    {
+        if (is_word_of_other_code(it->first, other_g, "53"))
+            it = values.erase(it);
+        else
+            ++it;
+    }
+
     if (std::find_if(std::cbegin(other_g), std::cend(other_g), [](const std::string& val) { return val == "28"; }) !=
         std::cend(other_g))
         move_to_machine_base_point = true;
-- 
2.43.0


From 3b82515b1dc81c57a88548f35ce22c6e2e19bc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:45 +0000
Subject: [PATCH 34/84] fix: compare the whole feed with the limit of the
 machine

F20000.5 passed a limit of 20000.
---
 parser/fanuc/RangeVerifier.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/parser/fanuc/RangeVerifier.cpp b/parser/fanuc/RangeVerifier.cpp
index 86196e8..f8a412a 100644
--- a/parser/fanuc/RangeVerifier.cpp
+++ b/parser/fanuc/RangeVerifier.cpp
@@ -46,10 +46,13 @@ public:
         }
         else if (data.word == "F")
         {
-            if (data.value && std::stoi(*data.value) > kinematics.max_working_feed)
+            auto feed = data.value.value_or("0");
+            if (data.dot && data.value2)
+                feed += *data.dot + *data.value2;
+            if (std::stod(feed) > kinematics.max_working_feed)
                 throw range_verifier_exception(make_message(MessageName::ValueHigherThanAllowed, language,
                                                             std::string("F"),
-                                                            *data.value, std::to_string(kinematics.max_working_feed)));
+                                                            feed, std::to_string(kinematics.max_working_feed)));
         }
     }
 
-- 
2.43.0


From 81662cc2a6a44a123a8ddd5827f0bc845e533db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:18 +0000
Subject: [PATCH 35/84] fix: a helix given with R has that radius

The centre of an earlier block, or I0 J0 of the machine point, was used instead
of the radius written in the block.
---
 parser/fanuc/AttributesPathCalculator.cpp | 24 +++++++++++++++++------
 parser/fanuc/AttributesPathCalculator.h   |  1 +
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index 88ee559..784e994 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -461,6 +461,7 @@ void AttributesPathCalculator::reset()
     active_g9697     = {};
     active_feed_mode = cnc_default_values.default_feed_mode;
     active_helix     = EHelixType::None;
+    active_helix_by_radius = false;
     active_t.clear();
     cycle_values.clear();
     active_auto_rapid_traverse_after_tool_exchange = false;
@@ -989,6 +990,11 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
                 throw path_calc_exception(
                     make_message(MessageName::ValueNotSetForEitherEither, language, param1, param2, param3));
 
+            if (r && (!i || !j))
+                active_helix_by_radius = true;
+            else if (i || j)
+                active_helix_by_radius = false;
+
             if (!i)
                 i = i_prev;
 
@@ -1005,6 +1011,8 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
                 throw path_calc_exception(
                     make_message(MessageName::ValueNotSetForEitherEither, language, param1, param2, param3));
 
+            const bool by_centre = i && j && !(active_helix_by_radius && r);
+
             if (current_g9091 == EProgrammingType::Incremental)
             {
                 const auto z_curr = z ? *z : 0.;
@@ -1012,14 +1020,14 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
                 {
                     if ((!x || *x == 0.) && (!y || *y == 0.))
                     {
-                        if (i && j)
+                        if (by_centre)
                             path_result.work_motion = gfunc_helix_incr(z_curr, *i, *j);
                         else
                             path_result.work_motion = gfunc_helix_r_incr(z_curr, *r);
                     }
                     else
                     {
-                        if (i && j)
+                        if (by_centre)
                             path_result.work_motion = PathCalculator::G2G3_HelixLast(gfunc_helix_incr(z_curr, *i, *j));
                         else
                             path_result.work_motion = PathCalculator::G2G3_HelixLast(gfunc_helix_r_incr(z_curr, *r));
@@ -1031,7 +1039,7 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
                     if (first_helix_quarter_incr_block || (!first_helix_quarter_incr_block && x && i && j))
                     {
                         first_helix_quarter_incr_block = false;
-                        if (i && j)
+                        if (by_centre)
                             path_result.work_motion = gfunc_helix_quarter_incr(z_curr, *i, *j);
                         else
                             path_result.work_motion = gfunc_helix_quarter_r_incr(z_curr, *r);
@@ -1040,6 +1048,8 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
                     {
                         active_helix  = EHelixType::None;
                         calculate_arc = true;
+                        if (!by_centre)
+                            i = j = std::nullopt;
                     }
                 }
             }
@@ -1052,14 +1062,14 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
                 {
                     if (*x_prev == x_curr && *y_prev == y_curr)
                     {
-                        if (i && j)
+                        if (by_centre)
                             path_result.work_motion = gfunc_helix(*z_prev, z_curr, *i, *j);
                         else
                             path_result.work_motion = gfunc_helix_r(*z_prev, z_curr, *r);
                     }
                     else
                     {
-                        if (i && j)
+                        if (by_centre)
                             path_result.work_motion = PathCalculator::G2G3_HelixLast(gfunc_helix(*z_prev, z_curr, *i, *j));
                         else
                             path_result.work_motion = PathCalculator::G2G3_HelixLast(gfunc_helix_r(*z_prev, z_curr, *r));
@@ -1070,7 +1080,7 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
                 {
                     if (*x_prev != x_curr && *y_prev != y_curr && *z_prev != z_curr)
                     {
-                        if (i && j)
+                        if (by_centre)
                             path_result.work_motion = gfunc_helix_quarter(*z_prev, z_curr, *i, *j);
                         else
                             path_result.work_motion = gfunc_helix_quarter_r(*z_prev, z_curr, *r);
@@ -1079,6 +1089,8 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
                     {
                         active_helix  = EHelixType::None;
                         calculate_arc = true;
+                        if (!by_centre)
+                            i = j = std::nullopt;
                     }
                 }
             }
diff --git a/parser/fanuc/AttributesPathCalculator.h b/parser/fanuc/AttributesPathCalculator.h
index b405d4b..c786111 100644
--- a/parser/fanuc/AttributesPathCalculator.h
+++ b/parser/fanuc/AttributesPathCalculator.h
@@ -97,6 +97,7 @@ private:
     EConstantSurfaceSpeedControl  active_g9697{};
     EFeedMode                     active_feed_mode{};
     EHelixType                    active_helix{};
+    bool                          active_helix_by_radius{}; // R was given last, not the centre
     std::map<std::string, double> cycle_values; // Z, R and Q in force in the active drilling cycle
     std::string                   active_t;
     bool                          active_auto_rapid_traverse_after_tool_exchange{};
-- 
2.43.0


From ea826736755cb1bbf127e49496c767cf91d6c658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:27 +0000
Subject: [PATCH 36/84] fix: a helix is a full turn only if it ends where it
 starts

An absolute end at X0 Y0 and an incremental one that equals the position were
taken for full turns.
---
 parser/fanuc/AttributesPathCalculator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index 784e994..eae9709 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -967,7 +967,7 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
         {
             if (!z_prev)
                 throw path_calc_exception(make_message(MessageName::MissingPreviousValue, language, axis3));
-            if ((*x == *x_prev && *y == *y_prev) || (*x == 0. && *y == 0.))
+            if (current_g9091 == EProgrammingType::Incremental ? *x == 0. && *y == 0. : *x == *x_prev && *y == *y_prev)
             {
                 active_helix = EHelixType::Full;
             }
-- 
2.43.0


From ca4e54644d8e398f3f9f434d788b74476105aad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:23 +0000
Subject: [PATCH 37/84] fix: a depth given from the retract level is a distance

With incremental depths of drilling cycles G81 with G99 and G83 counted a hole
downwards with a negative cutting path.
---
 parser/fanuc/PathCalculator.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser/fanuc/PathCalculator.cpp b/parser/fanuc/PathCalculator.cpp
index 8db8be0..7668d90 100644
--- a/parser/fanuc/PathCalculator.cpp
+++ b/parser/fanuc/PathCalculator.cpp
@@ -364,8 +364,8 @@ std::pair<double, double> PathCalculator::DrillCyclePath_G17(double Zpre, double
             }
             else if (GreturnMode == EDrillGreturnMode::G99)
             {
-                auto Cycle_distance_Rapid  = Zpre - Rparam + Zgleb;
-                auto Cycle_distance_Linear = Zgleb;
+                auto Cycle_distance_Rapid  = Zpre - Rparam + std::abs(Zgleb);
+                auto Cycle_distance_Linear = std::abs(Zgleb);
                 return std::make_pair(Cycle_distance_Linear, Cycle_distance_Rapid);
             }
         }
@@ -507,7 +507,7 @@ std::pair<double, double> PathCalculator::DrillCyclePath_G17(double Zpre, double
         int mnoznikG98G99 = GreturnMode == EDrillGreturnMode::G99 ? 1 : 2;
         if (depthProgrammingType == EDepthProgrammingType::Incremental)
         {
-            auto Gleb_rzeczyw          = Zgleb;
+            auto Gleb_rzeczyw          = std::abs(Zgleb);
             auto liczbaprzejsc         = std::floor(Gleb_rzeczyw / Qparam);
             auto resztagleb            = std::fmod(Gleb_rzeczyw, Qparam);
             auto dparam                = Qparam / 5;
-- 
2.43.0


From a936617c36d11040c45bffcf123dfc148bbd62a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:00 +0000
Subject: [PATCH 38/84] fix: rounding of positions makes no difference

A position reached by incremental moves differs from the same position written
as a number in the last binary digits: a helix to such a point was taken for a
circle, and an axis exactly at the end of its travel was reported.
---
 parser/fanuc/AttributesPathCalculator.cpp | 8 +++++---
 parser/fanuc/MathUtils.h                  | 8 ++++++++
 parser/fanuc/RangeVerifier.cpp            | 3 ++-
 3 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index eae9709..9e890f0 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -1,6 +1,7 @@
 ﻿#include "stdafx.h"
 
 #include "AttributesPathCalculator.h"
+#include "MathUtils.h"
 
 #include <array>
 #include <optional>
@@ -967,7 +968,7 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
         {
             if (!z_prev)
                 throw path_calc_exception(make_message(MessageName::MissingPreviousValue, language, axis3));
-            if (current_g9091 == EProgrammingType::Incremental ? *x == 0. && *y == 0. : *x == *x_prev && *y == *y_prev)
+            if (current_g9091 == EProgrammingType::Incremental ? *x == 0. && *y == 0. : MathUtils::SamePosition(*x, *x_prev) && MathUtils::SamePosition(*y, *y_prev))
             {
                 active_helix = EHelixType::Full;
             }
@@ -1060,7 +1061,7 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
                 const auto z_curr = z ? *z : *z_prev;
                 if (active_helix == EHelixType::Full)
                 {
-                    if (*x_prev == x_curr && *y_prev == y_curr)
+                    if (MathUtils::SamePosition(*x_prev, x_curr) && MathUtils::SamePosition(*y_prev, y_curr))
                     {
                         if (by_centre)
                             path_result.work_motion = gfunc_helix(*z_prev, z_curr, *i, *j);
@@ -1078,7 +1079,8 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
                 }
                 else if (active_helix == EHelixType::Quarter)
                 {
-                    if (*x_prev != x_curr && *y_prev != y_curr && *z_prev != z_curr)
+                    if (!MathUtils::SamePosition(*x_prev, x_curr) && !MathUtils::SamePosition(*y_prev, y_curr) &&
+                        !MathUtils::SamePosition(*z_prev, z_curr))
                     {
                         if (by_centre)
                             path_result.work_motion = gfunc_helix_quarter(*z_prev, z_curr, *i, *j);
diff --git a/parser/fanuc/MathUtils.h b/parser/fanuc/MathUtils.h
index f2d5701..01216d0 100644
--- a/parser/fanuc/MathUtils.h
+++ b/parser/fanuc/MathUtils.h
@@ -12,6 +12,14 @@ namespace fanuc {
 class MathUtils
 {
 public:
+    // far below what a control can be told, far above the rounding of sums of such numbers
+    static constexpr double Tolerance = 1e-6;
+
+    static bool SamePosition(double a, double b)
+    {
+        return std::abs(a - b) < Tolerance;
+    }
+
     static double CalcLineLength2d(double X, double Y)
     {
         return sqrt(pow(X, 2) + pow(Y, 2));
diff --git a/parser/fanuc/RangeVerifier.cpp b/parser/fanuc/RangeVerifier.cpp
index f8a412a..2a4bcd4 100644
--- a/parser/fanuc/RangeVerifier.cpp
+++ b/parser/fanuc/RangeVerifier.cpp
@@ -1,5 +1,6 @@
 ﻿#include "stdafx.h"
 
+#include "MathUtils.h"
 #include "RangeVerifier.h"
 
 #include "MessageTextImpl.h"
@@ -104,7 +105,7 @@ void RangeVerifier::operator()(const Kinematics& kinematics, const ZeroPoint& ze
             range_max -= zero_point.z;
         }
 
-        if (current > range_max || current < range_min)
+        if (current > range_max + MathUtils::Tolerance || current < range_min - MathUtils::Tolerance)
             throw range_verifier_exception(make_message(MessageName::ValueOutOfRange, language, it.first,
                                                         std::to_string(current),
                                                         std::to_string(range_min), std::to_string(range_max)));
-- 
2.43.0


From c0c4c756e95853f6dc866d5795f4fb29f57b7b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:07 +0000
Subject: [PATCH 39/84] fix: a depth of a whole number of pecks has no rest

Rounding of the depth made one peck of it a rest, so that the tool went down
once more.
---
 parser/fanuc/MathUtils.h        | 11 +++++++++++
 parser/fanuc/PathCalculator.cpp | 18 +++++++++---------
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/parser/fanuc/MathUtils.h b/parser/fanuc/MathUtils.h
index 01216d0..f6f1aa3 100644
--- a/parser/fanuc/MathUtils.h
+++ b/parser/fanuc/MathUtils.h
@@ -20,6 +20,17 @@ public:
         return std::abs(a - b) < Tolerance;
     }
 
+    static double CountPecks(double Depth, double Peck)
+    {
+        return std::floor((Depth + Tolerance) / Peck);
+    }
+
+    static double RestAfterPecks(double Depth, double Peck)
+    {
+        const auto rest = Depth - CountPecks(Depth, Peck) * Peck;
+        return rest > Tolerance ? rest : 0.;
+    }
+
     static double CalcLineLength2d(double X, double Y)
     {
         return sqrt(pow(X, 2) + pow(Y, 2));
diff --git a/parser/fanuc/PathCalculator.cpp b/parser/fanuc/PathCalculator.cpp
index 7668d90..7e2355a 100644
--- a/parser/fanuc/PathCalculator.cpp
+++ b/parser/fanuc/PathCalculator.cpp
@@ -463,14 +463,14 @@ std::pair<double, double> PathCalculator::DrillCyclePath_G17(double Zpre, double
         if (depthProgrammingType == EDepthProgrammingType::Incremental)
         {
             auto Gleb_rzeczyw     = std::abs(Zgleb);
-            auto liczbaprzejsc    = std::floor(Gleb_rzeczyw / Qparam);
+            auto liczbaprzejsc    = MathUtils::CountPecks(Gleb_rzeczyw, Qparam);
             auto dparam           = Qparam / 5;
             Cycle_distance_Linear = Gleb_rzeczyw + dparam * liczbaprzejsc;
         }
         else
         {
             auto Gleb_rzeczyw     = std::abs(Rparam - Zgleb);
-            auto liczbaprzejsc    = std::floor(Gleb_rzeczyw / Qparam);
+            auto liczbaprzejsc    = MathUtils::CountPecks(Gleb_rzeczyw, Qparam);
             auto dparam           = Qparam / 5;
             Cycle_distance_Linear = Gleb_rzeczyw + dparam * liczbaprzejsc;
         }
@@ -508,8 +508,8 @@ std::pair<double, double> PathCalculator::DrillCyclePath_G17(double Zpre, double
         if (depthProgrammingType == EDepthProgrammingType::Incremental)
         {
             auto Gleb_rzeczyw          = std::abs(Zgleb);
-            auto liczbaprzejsc         = std::floor(Gleb_rzeczyw / Qparam);
-            auto resztagleb            = std::fmod(Gleb_rzeczyw, Qparam);
+            auto liczbaprzejsc         = MathUtils::CountPecks(Gleb_rzeczyw, Qparam);
+            auto resztagleb            = MathUtils::RestAfterPecks(Gleb_rzeczyw, Qparam);
             auto dparam                = Qparam / 5;
             auto Cycle_distance_Linear = Qparam * liczbaprzejsc + dparam * liczbaprzejsc + resztagleb;
             auto sumaQ                 = liczbaprzejsc * liczbaprzejsc + liczbaprzejsc;
@@ -531,8 +531,8 @@ std::pair<double, double> PathCalculator::DrillCyclePath_G17(double Zpre, double
             else
             {*/
             auto Gleb_rzeczyw          = std::abs(Rparam - Zgleb);
-            auto liczbaprzejsc         = std::floor(Gleb_rzeczyw / Qparam);
-            auto resztagleb            = std::fmod(Gleb_rzeczyw, Qparam);
+            auto liczbaprzejsc         = MathUtils::CountPecks(Gleb_rzeczyw, Qparam);
+            auto resztagleb            = MathUtils::RestAfterPecks(Gleb_rzeczyw, Qparam);
             auto dparam                = Qparam / 5;
             auto Cycle_distance_Linear = Qparam * liczbaprzejsc + dparam * liczbaprzejsc + resztagleb;
             auto sumaQ                 = liczbaprzejsc * liczbaprzejsc + liczbaprzejsc;
@@ -617,7 +617,7 @@ std::pair<double, double> PathCalculator::DrillCyclePath_G17(double Zgleb, doubl
     else if (Gmode == EDrillGmode::G73)
     {
         const auto Gleb_rzeczyw          = std::abs(Zgleb);
-        const auto liczbaprzejsc         = std::floor(Gleb_rzeczyw / Qparam);
+        const auto liczbaprzejsc         = MathUtils::CountPecks(Gleb_rzeczyw, Qparam);
         const auto dparam                = Qparam / 5;
         const auto Cycle_distance_Linear = Gleb_rzeczyw + dparam * liczbaprzejsc;
 
@@ -636,8 +636,8 @@ std::pair<double, double> PathCalculator::DrillCyclePath_G17(double Zgleb, doubl
     {
         const int  mnoznikG98G99         = GreturnMode == EDrillGreturnMode::G99 ? 1 : 2;
         const auto Gleb_rzeczyw          = std::abs(Zgleb);
-        const auto liczbaprzejsc         = std::floor(Gleb_rzeczyw / Qparam);
-        const auto resztagleb            = std::fmod(Gleb_rzeczyw, Qparam);
+        const auto liczbaprzejsc         = MathUtils::CountPecks(Gleb_rzeczyw, Qparam);
+        const auto resztagleb            = MathUtils::RestAfterPecks(Gleb_rzeczyw, Qparam);
         const auto dparam                = Qparam / 5;
         const auto Cycle_distance_Linear = Gleb_rzeczyw + dparam * liczbaprzejsc;
         const auto sumaQ                 = liczbaprzejsc * liczbaprzejsc + liczbaprzejsc;
-- 
2.43.0


From 944980e8df592f418aa60a670308dea0a20dc09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:37 +0000
Subject: [PATCH 40/84] fix: the inverse functions take a number and give
 degrees

---
 parser/fanuc/ValueCalculator.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser/fanuc/ValueCalculator.cpp b/parser/fanuc/ValueCalculator.cpp
index b2f96da..e7b004e 100644
--- a/parser/fanuc/ValueCalculator.cpp
+++ b/parser/fanuc/ValueCalculator.cpp
@@ -281,11 +281,11 @@ public:
         if (x.name == "abs")
             return std::abs(rhs);
         else if (x.name == "acos")
-            return std::acos(rhs * M_PI / 180);
+            return std::acos(rhs) * 180 / M_PI;
         else if (x.name == "asin")
-            return std::asin(rhs * M_PI / 180);
+            return std::asin(rhs) * 180 / M_PI;
         else if (x.name == "atan")
-            return std::atan(rhs * M_PI / 180);
+            return std::atan(rhs) * 180 / M_PI;
         else if (x.name == "ceil")
             return std::ceil(rhs);
         else if (x.name == "cos")
-- 
2.43.0


From ed0188f29f92dd482a45306d91aeb24bedfc2511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:37 +0000
Subject: [PATCH 41/84] fix: FIX drops and FUP raises the fraction of negative
 numbers too

---
 parser/fanuc/ValueCalculator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/fanuc/ValueCalculator.cpp b/parser/fanuc/ValueCalculator.cpp
index e7b004e..6dbb86c 100644
--- a/parser/fanuc/ValueCalculator.cpp
+++ b/parser/fanuc/ValueCalculator.cpp
@@ -287,7 +287,7 @@ public:
         else if (x.name == "atan")
             return std::atan(rhs) * 180 / M_PI;
         else if (x.name == "ceil")
-            return std::ceil(rhs);
+            return rhs < 0 ? std::floor(rhs) : std::ceil(rhs); // away from zero
         else if (x.name == "cos")
             return std::cos(rhs * M_PI / 180);
         else if (x.name == "cosh")
@@ -295,7 +295,7 @@ public:
         else if (x.name == "exp")
             return std::exp(rhs);
         else if (x.name == "floor")
-            return std::floor(rhs);
+            return std::trunc(rhs);
         else if (x.name == "log10")
             return std::log10(rhs);
         else if (x.name == "log")
-- 
2.43.0


From afacf7234bb9dec5bd4722cb555e5402cfabe42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:37 +0000
Subject: [PATCH 42/84] fix: BCD converts to and BIN from binary coded decimal

---
 parser/fanuc/ValueCalculator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/fanuc/ValueCalculator.cpp b/parser/fanuc/ValueCalculator.cpp
index 6dbb86c..72a21da 100644
--- a/parser/fanuc/ValueCalculator.cpp
+++ b/parser/fanuc/ValueCalculator.cpp
@@ -311,9 +311,9 @@ public:
         else if (x.name == "round")
             return std::round(rhs);
         else if (x.name == "bcd")
-            return bcd_to_ui32(static_cast<uint64_t>(rhs));
-        else if (x.name == "bin")
             return static_cast<double>(uint32_to_bcd(static_cast<uint32_t>(rhs)));
+        else if (x.name == "bin")
+            return bcd_to_ui32(static_cast<uint64_t>(rhs));
 
         // BOOST_ASSERT(0);
         // return 0;
-- 
2.43.0


From 5bd70ae885d731616a7c6aed5179d2b44be8ae97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:02 +0000
Subject: [PATCH 43/84] fix: blanks are allowed between brackets

---
 parser/fanuc/AllAttributesParserGrammar.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/parser/fanuc/AllAttributesParserGrammar.h b/parser/fanuc/AllAttributesParserGrammar.h
index 65377f2..ae5015f 100644
--- a/parser/fanuc/AllAttributesParserGrammar.h
+++ b/parser/fanuc/AllAttributesParserGrammar.h
@@ -331,7 +331,7 @@ public:
             phx::bind(verify_range<DecimalAttributeData::type1, DecimalAttributeData::type2>, phx::cref(word_grammar),
                       qi::_val, phx::ref(message), language, phx::ref(st));
 
-        close_bracket = +qi::string("]");
+        close_bracket = qi::char_(']') >> *(qi::omit[*qi::blank] >> qi::char_(']'));
 
         // Note: division including closing brackets is handled in either division_attribute_grammar or here
         optional_block = qi::char_("/") > &!qi::lit('/') > qi::attr(boost::none) > -qi::char_("-+") >
@@ -363,8 +363,8 @@ public:
             phx::bind(verify_range<DecimalAttributeData::type1, DecimalAttributeData::type2>, phx::cref(word_grammar),
                       qi::_val, phx::ref(message), language, phx::ref(st));
 
-        open_bracket  = +qi::string("[");
-        close_bracket = +qi::string("]");
+        open_bracket  = qi::char_('[') >> *(qi::omit[*qi::blank] >> qi::char_('['));
+        close_bracket = qi::char_(']') >> *(qi::omit[*qi::blank] >> qi::char_(']'));
         // Note: division including closing brackets is handled in either optional_block_grammar or here
         division_attribute = qi::char_("/") > &!qi::lit('/') > qi::attr(boost::none) > -qi::char_("-+") >
                              -open_bracket > -qi::string("#") > qi::lexeme[-digits] > qi::no_skip[-qi::char_('.')] >
@@ -397,8 +397,8 @@ public:
             phx::bind(verify_range<DecimalAttributeData::type1, DecimalAttributeData::type2>, phx::cref(word_grammar),
                       qi::_val, phx::ref(message), language, phx::ref(st));
 
-        open_bracket         = +qi::string("[");
-        close_bracket        = +qi::string("]");
+        open_bracket         = qi::char_('[') >> *(qi::omit[*qi::blank] >> qi::char_('['));
+        close_bracket        = qi::char_(']') >> *(qi::omit[*qi::blank] >> qi::char_(']'));
         assignable_attribute = symbols > qi::char_("=") > -qi::char_("-+") > -open_bracket > -qi::string("#") >
                                qi::lexeme[-digits] > qi::no_skip[-qi::char_('.')] > qi::no_skip[-digits_tens] >
                                -close_bracket;
@@ -431,8 +431,8 @@ public:
             phx::bind(verify_range<DecimalAttributeData::type1, DecimalAttributeData::type2>, phx::cref(word_grammar),
                       qi::_val, phx::ref(message), language, phx::ref(st));
 
-        open_bracket  = +qi::string("[");
-        close_bracket = +qi::string("]");
+        open_bracket  = qi::char_('[') >> *(qi::omit[*qi::blank] >> qi::char_('['));
+        close_bracket = qi::char_(']') >> *(qi::omit[*qi::blank] >> qi::char_(']'));
         // Note: division including closing brackets is handled in either optional_block_grammar or
         // division_attribute_grammar
         decimal_attribute = (&!(assignable_symbols >> qi::lit('=')) >> symbols) > qi::attr(boost::none) >
-- 
2.43.0


From 91d356d1e96b910fbf5759d3b55c1b0cc662b9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:59 +0000
Subject: [PATCH 44/84] fix: dwell and rotation codes hold for the words before
 them too when converting units

---
 parser/fanuc/UnitConverter.cpp | 45 +++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 23 deletions(-)

diff --git a/parser/fanuc/UnitConverter.cpp b/parser/fanuc/UnitConverter.cpp
index d9a07a7..d3098e8 100644
--- a/parser/fanuc/UnitConverter.cpp
+++ b/parser/fanuc/UnitConverter.cpp
@@ -28,6 +28,20 @@ public:
     {
     }
 
+    // the codes decide about all words of their block, also about those before them
+    void codes(const AttributeVariant& attribute)
+    {
+        const auto* data = boost::get<DecimalAttributeData>(&attribute);
+        if (!data || data->word != "G" || data->macro || !data->value)
+            return;
+        const auto val = std::stoi(*data->value);
+        if (val == 4)
+            was_g4 = true;
+        else if (val == 68)
+            if (!data->value2 || (std::stoi(*data->value2) >= 2 && std::stoi(*data->value2) <= 4))
+                was_g68 = true;
+    }
+
     void operator()(DecimalAttributeData& data)
     {
         if (ignore_rest)
@@ -43,12 +57,6 @@ public:
         }
         was_first_item = true;
 
-        if (data.word == "G" && data.value && std::stoi(*data.value) == 4)
-        {
-            ignore_rest = true;
-            return;
-        }
-
         if (data.macro || data.open_bracket || data.close_bracket)
             return;
 
@@ -65,25 +73,11 @@ public:
                 *data.value = "20";
                 return;
             }
-            else if (val == 68)
-            {
-                if (data.value2)
-                {
-                    auto val2 = std::stoi(*data.value2);
-                    if (val2 == 2 || val2 == 3 || val2 == 4)
-                    {
-                        was_g68 = true;
-                        return;
-                    }
-                }
-                else
-                {
-                    was_g68 = true;
-                    return;
-                }
-            }
         }
 
+        if (was_g4)
+            return;
+
         if (was_g68)
         {
             auto itor = std::find_if(std::cbegin(gcode68_ignore_params), std::cend(gcode68_ignore_params),
@@ -159,6 +153,7 @@ private:
     const UnitConversionType        conversion_type;
     bool                            was_first_item{};
     bool                            ignore_rest{};
+    bool                            was_g4{};
     bool                            was_g68{};
 
     static constexpr std::array<std::string_view, 4> gcode68_ignore_params = {"I", "J", "K", "R"};
@@ -187,6 +182,8 @@ void UnitConverter::mm_to_inch(std::vector<AttributeVariant>& value)
 {
     UnitConverterVisitor unit_converter_visitor(conv_word_grammar_imperial, conv_words_imperial,
                                                 UnitConversionType::metric_to_imperial);
+    for (const auto& x : value)
+        unit_converter_visitor.codes(x);
     for (size_t x = 0; x < value.size(); ++x)
         boost::apply_visitor(unit_converter_visitor, value[x]);
 }
@@ -195,6 +192,8 @@ void UnitConverter::inch_to_mm(std::vector<AttributeVariant>& value)
 {
     UnitConverterVisitor unit_converter_visitor(conv_word_grammar_metric, conv_words_metric,
                                                 UnitConversionType::imperial_to_metric);
+    for (const auto& x : value)
+        unit_converter_visitor.codes(x);
     for (size_t x = 0; x < value.size(); ++x)
         boost::apply_visitor(unit_converter_visitor, value[x]);
 }
-- 
2.43.0


From 75b07db351f0a32cc569a79ad53297695a4585ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:15 +0000
Subject: [PATCH 45/84] fix: other codes and G80 in a block leave the rapid
 move it has when splitting

---
 parser/fanuc/FileSplitter.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/parser/fanuc/FileSplitter.cpp b/parser/fanuc/FileSplitter.cpp
index 25109cd..cf203d9 100644
--- a/parser/fanuc/FileSplitter.cpp
+++ b/parser/fanuc/FileSplitter.cpp
@@ -43,17 +43,18 @@ public:
             const auto val = std::stoi(*data.value);
             if ((val >= 0 && val <= 3))
             {
-                active_g = val;
+                active_g        = val;
+                motion_in_block = true;
             }
             else if (is_drill_cycle(val) || is_drill_cycle_qparam(val))
             {
                 active_g    = val;
                 drill_cycle = true;
             }
-            else if (val == 80 || (active_g == 0 && cnc_default_values.rapid_traverse_cancel_cycle) ||
-                     (active_g == 1 && cnc_default_values.linear_interpolation_cancel_cycle))
+            else if (val == 80)
             {
-                active_g    = val;
+                if (!motion_in_block)
+                    active_g = val;
                 drill_cycle = false;
             }
             else
@@ -94,9 +95,10 @@ public:
 
     void reset()
     {
-        was_comment = false;
-        tool_change = false;
-        other_g     = std::nullopt;
+        was_comment     = false;
+        tool_change     = false;
+        motion_in_block = false;
+        other_g         = std::nullopt;
         if (active_g > 3)
             active_g = -1;
     }
@@ -128,6 +130,7 @@ private:
     bool                    was_comment{};
     bool                    drill_cycle{};
     bool                    tool_change{};
+    bool                    motion_in_block{};
     int                     tool_change_cnt{};
 };
 
-- 
2.43.0


From 13fd6b34842dee366f0cd7ef4eaf54eae113bc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:15 +0000
Subject: [PATCH 46/84] fix: the blocks of a split program get different
 numbers

---
 parser/fanuc/AllAttributesParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/fanuc/AllAttributesParser.cpp b/parser/fanuc/AllAttributesParser.cpp
index 5791eaa..db30ef9 100644
--- a/parser/fanuc/AllAttributesParser.cpp
+++ b/parser/fanuc/AllAttributesParser.cpp
@@ -526,7 +526,7 @@ bool AllAttributesParser::split_file(std::vector<std::string>&&
                 fs.evaluate(attr_path_calc->get_cnc_default_values(), std::move(vtmp), retraction_plane, value,
                             vec_time_result);
 
-            RenumberSettings rs{"N", 1, 0, 0, false, false};
+            RenumberSettings rs{"N", 1, 1, 99999, false, false};
             for (auto& x : value)
                 for (auto& y : x)
                     renumberer.renumber(y, rs);
@@ -553,7 +553,7 @@ bool AllAttributesParser::split_file(std::vector<std::string>&&
 
             fs.evaluate(attr_path_calc->get_cnc_default_values(), std::move(vtmp), retraction_plane, value);
 
-            RenumberSettings rs{"N", 1, 0, 0, false, false};
+            RenumberSettings rs{"N", 1, 1, 99999, false, false};
             for (auto& x : value)
                 for (auto& y : x)
                     renumberer.renumber(y, rs);
-- 
2.43.0


From e59888ee2873e59ac66e6ed5597618d5a87bc946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:15 +0000
Subject: [PATCH 47/84] fix: splitting at a text reports a faulty block instead
 of losing its rest

---
 parser/fanuc/AllAttributesParser.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/parser/fanuc/AllAttributesParser.cpp b/parser/fanuc/AllAttributesParser.cpp
index db30ef9..e2bd5ec 100644
--- a/parser/fanuc/AllAttributesParser.cpp
+++ b/parser/fanuc/AllAttributesParser.cpp
@@ -487,7 +487,13 @@ bool AllAttributesParser::split_file(std::vector<std::string>&&
             {
                 value[cnt].resize(t.size());
                 for (size_t x = 0; x < t.size(); ++x)
-                    renumber(static_cast<int>(x), t[x], value[cnt][x], message, single_line_msg, rs);
+                {
+                    auto line(t[x]);
+                    boost::algorithm::trim(line);
+                    if (!line.empty() &&
+                        !renumber(static_cast<int>(x), t[x], value[cnt][x], message, single_line_msg, rs))
+                        return false;
+                }
                 ++cnt;
             }
         }
-- 
2.43.0


From 9c989a2a65308fa259d52e9071c4ace826935fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:15 +0000
Subject: [PATCH 48/84] fix: leading zeros do not keep planes and arcs from
 being rotated

---
 parser/fanuc/AxesRotator.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parser/fanuc/AxesRotator.cpp b/parser/fanuc/AxesRotator.cpp
index 133542e..d493126 100644
--- a/parser/fanuc/AxesRotator.cpp
+++ b/parser/fanuc/AxesRotator.cpp
@@ -2,6 +2,7 @@
 
 #include "AxesRotator.h"
 
+#include <algorithm>
 #include <string>
 #include <unordered_map>
 
@@ -195,8 +196,9 @@ public:
                 return;
 
             auto& val = *data.value;
-            if (val == "02" || val == "03")
-                val.erase(0, 1); // G02 and G03 are G2 and G3
+            const auto digits = val.substr(std::min(val.find_first_not_of('0'), val.size() - 1));
+            if (digits == "2" || digits == "3" || digits == "17" || digits == "18" || digits == "19")
+                val = digits; // G02 is G2
             if (!(val == "17" || val == "18" || val == "19" || val == "2" || val == "3"))
                 return;
 
-- 
2.43.0


From a0aee0cbccefa6737b82b49ecd9db9d1b4427f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:04 +0000
Subject: [PATCH 49/84] fix: a message with missing or malformed data does not
 end the server

A missing member, a member of a wrong type or deeply nested JSON aborted the
server. The message is ignored now, a request is answered with an error.
---
 nclangsrv/JsonMessageHandler.cpp | 58 ++++++++++++++++++++++++++++++--
 nclangsrv/JsonMessageHandler.h   | 11 ++++++
 2 files changed, 67 insertions(+), 2 deletions(-)

diff --git a/nclangsrv/JsonMessageHandler.cpp b/nclangsrv/JsonMessageHandler.cpp
index b1c93f1..bfdc565 100644
--- a/nclangsrv/JsonMessageHandler.cpp
+++ b/nclangsrv/JsonMessageHandler.cpp
@@ -218,7 +218,7 @@ bool JsonMessageHandler::parse(const std::string& json)
 
     rapidjson::Document d;
 
-    rapidjson::ParseResult parse_result = d.Parse(json.c_str());
+    rapidjson::ParseResult parse_result = d.Parse<rapidjson::kParseIterativeFlag>(json.c_str());
     if (not parse_result)
     {
         if (mLogger)
@@ -251,6 +251,23 @@ bool JsonMessageHandler::parse(const std::string& json)
     if (mLogger)
         LOGGER << "JsonMessageHandler::" << __func__ << ": id:" << id << ", method:" << method << std::endl;
 
+    try
+    {
+        dispatch(id, method, d);
+    }
+    catch (const std::exception& e)
+    {
+        if (mLogger)
+            LOGGER << "JsonMessageHandler::" << __func__ << ": ERR: " << e.what() << std::endl;
+        if (d.HasMember("id") && d.HasMember("method"))
+            sendError(d, -32602, e.what());
+    }
+
+    return true;
+}
+
+void JsonMessageHandler::dispatch(int32_t id, const std::string& method, const rapidjson::Document& d)
+{
     if (method == "initialize")
     {
         initialize(id);
@@ -312,8 +329,45 @@ bool JsonMessageHandler::parse(const std::string& json)
         if (mLogger)
             LOGGER << "JsonMessageHandler::" << __func__ << ": WRN: No handler for method: " << method << std::endl;
     }
+}
 
-    return true;
+void JsonMessageHandler::sendError(const rapidjson::Document& request, int code, const std::string& text)
+{
+    rapidjson::Document d;
+    d.SetObject();
+    rapidjson::Document::AllocatorType& a = d.GetAllocator();
+
+    d.AddMember("jsonrpc", "2.0", a);
+
+    rapidjson::Value id;
+    if (request["id"].IsNumber() || request["id"].IsString())
+        id.CopyFrom(request["id"], a);
+    d.AddMember("id", id, a);
+
+    rapidjson::Value error(rapidjson::kObjectType);
+    {
+        rapidjson::Value message;
+        message.SetString(text.c_str(), static_cast<rapidjson::SizeType>(text.size()), a);
+        error.AddMember("code", code, a);
+        error.AddMember("message", message, a);
+    }
+    d.AddMember("error", error, a);
+
+    rapidjson::StringBuffer                    stringBuffer;
+    rapidjson::Writer<rapidjson::StringBuffer> writer(stringBuffer);
+    d.Accept(writer);
+
+    std::string response{stringBuffer.GetString()};
+
+    if (mLogger)
+    {
+        LOGGER << "JsonMessageHandler::" << __func__ << ": Content-Length: " << response.size() << std::endl
+               << "[" << response << "]" << std::endl;
+        mLogger->flush();
+    }
+
+    std::cout << "Content-Length: " << response.size() << MSG_ENDL << MSG_ENDL << response;
+    std::cout.flush();
 }
 
 void JsonMessageHandler::initialize(int32_t id)
diff --git a/nclangsrv/JsonMessageHandler.h b/nclangsrv/JsonMessageHandler.h
index d712d3d..8e2ae73 100644
--- a/nclangsrv/JsonMessageHandler.h
+++ b/nclangsrv/JsonMessageHandler.h
@@ -2,9 +2,18 @@
 
 #include <fstream>
 #include <memory>
+#include <stdexcept>
 #include <string>
 #include <vector>
 
+// data missing in a message or of a wrong type ends only the handling of this message
+#define RAPIDJSON_ASSERT_THROWS
+#define RAPIDJSON_ASSERT(x)                                                                                            \
+    do                                                                                                                 \
+    {                                                                                                                  \
+        if (!(x))                                                                                                      \
+            throw std::runtime_error("malformed message: " #x);                                                        \
+    } while (false)
 #include <rapidjson/document.h>
 
 #include <GeneralParserDefines.h>
@@ -31,6 +40,8 @@ public:
     }
 
 private:
+    void dispatch(int32_t id, const std::string& method, const rapidjson::Document& d);
+    void sendError(const rapidjson::Document& request, int code, const std::string& text);
     void initialize(int32_t id);
     void initialized();
     void workspace_didChangeConfiguration(const rapidjson::Document& request);
-- 
2.43.0


From 3f25c3675874f88394aed2c747a329aa22d64773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:04 +0000
Subject: [PATCH 50/84] fix: the text of a document does not end at a NUL
 character

---
 nclangsrv/JsonMessageHandler.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/nclangsrv/JsonMessageHandler.cpp b/nclangsrv/JsonMessageHandler.cpp
index bfdc565..a257b8c 100644
--- a/nclangsrv/JsonMessageHandler.cpp
+++ b/nclangsrv/JsonMessageHandler.cpp
@@ -195,6 +195,11 @@ std::string getLangPrefix(parser::ELanguage lang)
     return lang_prefix;
 }
 
+std::string toString(const rapidjson::Value& value)
+{
+    return {value.GetString(), value.GetStringLength()};
+}
+
 } // namespace
 
 #define LOGGER (*mLogger)()
@@ -441,7 +446,7 @@ void JsonMessageHandler::textDocument_didOpen(const rapidjson::Document& request
     const auto& params       = request["params"];
     const auto& textDocument = params["textDocument"];
 
-    textDocument_publishDiagnostics(textDocument["uri"].GetString(), textDocument["text"].GetString());
+    textDocument_publishDiagnostics(toString(textDocument["uri"]), toString(textDocument["text"]));
 }
 
 void JsonMessageHandler::textDocument_didChange(const rapidjson::Document& request)
@@ -454,7 +459,7 @@ void JsonMessageHandler::textDocument_didChange(const rapidjson::Document& reque
         return;
 
     // full text synchronization: the last change holds the current text
-    textDocument_publishDiagnostics(textDocument["uri"].GetString(), contentChanges[contentChanges.Size() - 1]["text"].GetString());
+    textDocument_publishDiagnostics(toString(textDocument["uri"]), toString(contentChanges[contentChanges.Size() - 1]["text"]));
 }
 
 void JsonMessageHandler::textDocument_didClose(const rapidjson::Document& request)
-- 
2.43.0


From f9c6c2014be5dded7d6a51f44dc439eb8c9aca23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:04 +0000
Subject: [PATCH 51/84] fix: answer with the id of the request also if it is a
 string or a large number

---
 nclangsrv/JsonMessageHandler.cpp | 40 ++++++++++++++++++--------------
 nclangsrv/JsonMessageHandler.h   |  6 ++---
 2 files changed, 26 insertions(+), 20 deletions(-)

diff --git a/nclangsrv/JsonMessageHandler.cpp b/nclangsrv/JsonMessageHandler.cpp
index a257b8c..77afa05 100644
--- a/nclangsrv/JsonMessageHandler.cpp
+++ b/nclangsrv/JsonMessageHandler.cpp
@@ -195,6 +195,15 @@ std::string getLangPrefix(parser::ELanguage lang)
     return lang_prefix;
 }
 
+// the reply to a request has the same id: a number or a string
+rapidjson::Value requestId(const rapidjson::Document& request, rapidjson::Document::AllocatorType& a)
+{
+    rapidjson::Value id;
+    if (request.HasMember("id") && (request["id"].IsNumber() || request["id"].IsString()))
+        id.CopyFrom(request["id"], a);
+    return id;
+}
+
 std::string toString(const rapidjson::Value& value)
 {
     return {value.GetString(), value.GetStringLength()};
@@ -275,7 +284,7 @@ void JsonMessageHandler::dispatch(int32_t id, const std::string& method, const r
 {
     if (method == "initialize")
     {
-        initialize(id);
+        initialize(d);
     }
     else if (method == "initialized")
     {
@@ -299,7 +308,7 @@ void JsonMessageHandler::dispatch(int32_t id, const std::string& method, const r
     }
     else if (method == "textDocument/completion")
     {
-        textDocument_completion(id);
+        textDocument_completion(d);
     }
     else if (method == "completionItem/resolve")
     {
@@ -323,7 +332,7 @@ void JsonMessageHandler::dispatch(int32_t id, const std::string& method, const r
     }
     else if (method == "shutdown")
     {
-        shutdown(id);
+        shutdown(d);
     }
     else if (method == "exit")
     {
@@ -344,10 +353,7 @@ void JsonMessageHandler::sendError(const rapidjson::Document& request, int code,
 
     d.AddMember("jsonrpc", "2.0", a);
 
-    rapidjson::Value id;
-    if (request["id"].IsNumber() || request["id"].IsString())
-        id.CopyFrom(request["id"], a);
-    d.AddMember("id", id, a);
+    d.AddMember("id", requestId(request, a), a);
 
     rapidjson::Value error(rapidjson::kObjectType);
     {
@@ -375,14 +381,14 @@ void JsonMessageHandler::sendError(const rapidjson::Document& request, int code,
     std::cout.flush();
 }
 
-void JsonMessageHandler::initialize(int32_t id)
+void JsonMessageHandler::initialize(const rapidjson::Document& request)
 {
     rapidjson::Document d;
     d.SetObject();
     rapidjson::Document::AllocatorType& a = d.GetAllocator();
 
     d.AddMember("jsonrpc", "2.0", a);
-    d.AddMember("id", id, a);
+    d.AddMember("id", requestId(request, a), a);
 
     rapidjson::Value result(rapidjson::kObjectType);
     {
@@ -522,7 +528,7 @@ void JsonMessageHandler::fetch_macrosDesc()
     }
 }
 
-void JsonMessageHandler::textDocument_completion(int32_t id)
+void JsonMessageHandler::textDocument_completion(const rapidjson::Document& request)
 {
     fetch_gCodesDesc();
     fetch_mCodesDesc();
@@ -532,7 +538,7 @@ void JsonMessageHandler::textDocument_completion(int32_t id)
     rapidjson::Document::AllocatorType& a = d.GetAllocator();
 
     d.AddMember("jsonrpc", "2.0", a);
-    d.AddMember("id", id, a);
+    d.AddMember("id", requestId(request, a), a);
 
     rapidjson::Value result(rapidjson::kArrayType);
     {
@@ -579,7 +585,7 @@ void JsonMessageHandler::completionItem_resolve(const rapidjson::Document& reque
     rapidjson::Document::AllocatorType& a = d.GetAllocator();
 
     d.AddMember("jsonrpc", "2.0", a);
-    d.AddMember("id", request["id"].GetInt(), a);
+    d.AddMember("id", requestId(request, a), a);
 
     rapidjson::Value result(rapidjson::kObjectType);
     {
@@ -723,7 +729,7 @@ void JsonMessageHandler::textDocument_hover(const rapidjson::Document& request)
     rapidjson::Document::AllocatorType& a = d.GetAllocator();
 
     d.AddMember("jsonrpc", "2.0", a);
-    d.AddMember("id", request["id"].GetInt(), a);
+    d.AddMember("id", requestId(request, a), a);
 
     rapidjson::Value result(rapidjson::kObjectType);
     {
@@ -901,7 +907,7 @@ void JsonMessageHandler::textDocument_codeLens(const rapidjson::Document& reques
     rapidjson::Document::AllocatorType& a = d.GetAllocator();
 
     d.AddMember("jsonrpc", "2.0", a);
-    d.AddMember("id", request["id"].GetInt(), a);
+    d.AddMember("id", requestId(request, a), a);
 
     rapidjson::Value result(rapidjson::kArrayType);
 
@@ -989,7 +995,7 @@ void JsonMessageHandler::codeLens_resolve(const rapidjson::Document& request)
     rapidjson::Document::AllocatorType& a = d.GetAllocator();
 
     d.AddMember("jsonrpc", "2.0", a);
-    d.AddMember("id", request["id"].GetInt(), a);
+    d.AddMember("id", requestId(request, a), a);
 
     rapidjson::Value result(rapidjson::kObjectType);
 
@@ -1048,14 +1054,14 @@ void JsonMessageHandler::cancelRequest()
 {
 }
 
-void JsonMessageHandler::shutdown(int32_t id)
+void JsonMessageHandler::shutdown(const rapidjson::Document& request)
 {
     rapidjson::Document d;
     d.SetObject();
     rapidjson::Document::AllocatorType& a = d.GetAllocator();
 
     d.AddMember("jsonrpc", "2.0", a);
-    d.AddMember("id", id, a);
+    d.AddMember("id", requestId(request, a), a);
 
     rapidjson::Value result;
     d.AddMember("result", result, a);
diff --git a/nclangsrv/JsonMessageHandler.h b/nclangsrv/JsonMessageHandler.h
index 8e2ae73..c1e45b0 100644
--- a/nclangsrv/JsonMessageHandler.h
+++ b/nclangsrv/JsonMessageHandler.h
@@ -42,19 +42,19 @@ public:
 private:
     void dispatch(int32_t id, const std::string& method, const rapidjson::Document& d);
     void sendError(const rapidjson::Document& request, int code, const std::string& text);
-    void initialize(int32_t id);
+    void initialize(const rapidjson::Document& request);
     void initialized();
     void workspace_didChangeConfiguration(const rapidjson::Document& request);
     void textDocument_didOpen(const rapidjson::Document& request);
     void textDocument_didChange(const rapidjson::Document& request);
     void textDocument_didClose(const rapidjson::Document& request);
-    void textDocument_completion(int32_t id);
+    void textDocument_completion(const rapidjson::Document& request);
     void completionItem_resolve(const rapidjson::Document& request);
     void textDocument_hover(const rapidjson::Document& request);
     void textDocument_codeLens(const rapidjson::Document& request);
     void codeLens_resolve(const rapidjson::Document& request);
     void cancelRequest();
-    void shutdown(int32_t id);
+    void shutdown(const rapidjson::Document& request);
     void textDocument_publishDiagnostics(const std::string& uri, const std::string& content);
 
     void fetch_gCodesDesc();
-- 
2.43.0


From 6f4e84b7f61ab768be52b5be962bd608381b93ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:04 +0000
Subject: [PATCH 52/84] fix: answer requests that are not supported with an
 error

---
 nclangsrv/JsonMessageHandler.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nclangsrv/JsonMessageHandler.cpp b/nclangsrv/JsonMessageHandler.cpp
index 77afa05..641af41 100644
--- a/nclangsrv/JsonMessageHandler.cpp
+++ b/nclangsrv/JsonMessageHandler.cpp
@@ -342,6 +342,8 @@ void JsonMessageHandler::dispatch(int32_t id, const std::string& method, const r
     {
         if (mLogger)
             LOGGER << "JsonMessageHandler::" << __func__ << ": WRN: No handler for method: " << method << std::endl;
+        if (d.HasMember("id") && d.HasMember("method"))
+            sendError(d, -32601, "method not found: " + method);
     }
 }
 
-- 
2.43.0


From 13694f54a57d8a4cc2a9a2b233a6ca10c5106825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:22 +0000
Subject: [PATCH 53/84] fix: a request without id gets no reply

---
 nclangsrv/JsonMessageHandler.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nclangsrv/JsonMessageHandler.cpp b/nclangsrv/JsonMessageHandler.cpp
index 641af41..7fc7271 100644
--- a/nclangsrv/JsonMessageHandler.cpp
+++ b/nclangsrv/JsonMessageHandler.cpp
@@ -198,8 +198,11 @@ std::string getLangPrefix(parser::ELanguage lang)
 // the reply to a request has the same id: a number or a string
 rapidjson::Value requestId(const rapidjson::Document& request, rapidjson::Document::AllocatorType& a)
 {
+    if (!request.HasMember("id"))
+        throw std::runtime_error("request without id");
+
     rapidjson::Value id;
-    if (request.HasMember("id") && (request["id"].IsNumber() || request["id"].IsString()))
+    if (request["id"].IsNumber() || request["id"].IsString())
         id.CopyFrom(request["id"], a);
     return id;
 }
-- 
2.43.0


From f0535e3f2a2ff54cd7cc427915d451e273a910a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:22 +0000
Subject: [PATCH 54/84] fix: hovering over a line with a very long number does
 not end the server

---
 nclangsrv/JsonMessageHandler.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/nclangsrv/JsonMessageHandler.cpp b/nclangsrv/JsonMessageHandler.cpp
index 7fc7271..34d2988 100644
--- a/nclangsrv/JsonMessageHandler.cpp
+++ b/nclangsrv/JsonMessageHandler.cpp
@@ -2,6 +2,7 @@
 
 #include "JsonMessageHandler.h"
 
+#include <cctype>
 #include <chrono>
 #include <cstdint>
 #include <cstdlib>
@@ -119,6 +120,15 @@ void hoverMakeResult(const std::string& contents, int line, size_t from, size_t
 
 std::string searchPattern(const std::regex& r, const std::string& contentLine, int character, size_t& from, size_t& to)
 {
+    // no word has that many digits, and std::regex would exhaust the stack
+    constexpr size_t max_digits = 1000;
+    for (size_t x = 0, digits = 0; x < contentLine.size(); ++x)
+    {
+        digits = std::isdigit(static_cast<unsigned char>(contentLine[x])) ? digits + 1 : 0;
+        if (digits > max_digits)
+            return {};
+    }
+
     size_t      pos{};
     std::string strLine = contentLine;
     std::smatch m;
-- 
2.43.0


From d4ffaf97003720d8f597ba2e8e86b87e5aaeb684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:21 +0000
Subject: [PATCH 55/84] fix: a deeply nested expression is reported and does
 not end the server

The parser and the evaluator of expressions recurse for each open bracket, sign
and function, some hundred of them exhausted the stack.
---
 parser/fanuc/MessageText.h       |  1 +
 parser/fanuc/MessageText_en.cpp  |  1 +
 parser/fanuc/MessageText_pl.cpp  |  1 +
 parser/fanuc/ValueCalculator.cpp | 42 ++++++++++++++++++++++++++++++++
 4 files changed, 45 insertions(+)

diff --git a/parser/fanuc/MessageText.h b/parser/fanuc/MessageText.h
index 9b391a7..b1f2549 100644
--- a/parser/fanuc/MessageText.h
+++ b/parser/fanuc/MessageText.h
@@ -41,6 +41,7 @@ enum class MessageName
     UnsupportedBinaryOperation,
     UnsupportedUnaryOperation,
     UnsupportedFunction,
+    ExpressionTooComplex,
     DuplicateAddress,
     SNotAllowedWhenOperatorTurnsRotation,
     M3M4NotAllowedWhenOperatorTurnsRotation,
diff --git a/parser/fanuc/MessageText_en.cpp b/parser/fanuc/MessageText_en.cpp
index 17a4fc1..6835e84 100644
--- a/parser/fanuc/MessageText_en.cpp
+++ b/parser/fanuc/MessageText_en.cpp
@@ -35,6 +35,7 @@ const MessageText message_text_en[] = {
     {MessageName::UnsupportedOperation, {"Unsupported operation: "}},
     {MessageName::UnsupportedBinaryOperation, {"Unsupported binary operation: [", "]"}},
     {MessageName::UnsupportedUnaryOperation, {"Unsupported unary operation: [", "]"}},
+    {MessageName::ExpressionTooComplex, {"Expression too complex"}},
     {MessageName::UnsupportedFunction, {"Unsupported function: [", "]"}},
     {MessageName::DuplicateAddress, {"Same address [", "] in block not allowed"}},
     {MessageName::SNotAllowedWhenOperatorTurnsRotation, {"Address S not allowed when Operator turns on rotation"}},
diff --git a/parser/fanuc/MessageText_pl.cpp b/parser/fanuc/MessageText_pl.cpp
index 5de4985..80ae693 100644
--- a/parser/fanuc/MessageText_pl.cpp
+++ b/parser/fanuc/MessageText_pl.cpp
@@ -43,6 +43,7 @@ const MessageText message_text_pl[] = {
     {MessageName::UnsupportedOperation, {u8"Nieobsługiwana operacja: "_C}},
     {MessageName::UnsupportedBinaryOperation, {u8"Nieobsługiwana operacja dwuargumentowa: ["_C, "]"}},
     {MessageName::UnsupportedUnaryOperation, {u8"Nieobsługiwana operacja jednoargumentowa: ["_C, "]"}},
+    {MessageName::ExpressionTooComplex, {u8"Zbyt złożone wyrażenie"_C}},
     {MessageName::UnsupportedFunction, {u8"Nieobsługiwana funkcja: ["_C, "]"}},
     {MessageName::DuplicateAddress, {u8"Kolejny adres ["_C, "] niedozwolony w bloku"}},
     {MessageName::SNotAllowedWhenOperatorTurnsRotation, {u8"Niedozwolony adres S gdy obroty włącza Operator"_C}},
diff --git a/parser/fanuc/ValueCalculator.cpp b/parser/fanuc/ValueCalculator.cpp
index 72a21da..085b6f2 100644
--- a/parser/fanuc/ValueCalculator.cpp
+++ b/parser/fanuc/ValueCalculator.cpp
@@ -6,9 +6,11 @@
 #include "MessageTextImpl.h"
 #include "ValueCalculator.h"
 
+#include <cctype>
 #include <cmath>
 #include <iomanip>
 #include <limits>
+#include <vector>
 
 #ifndef M_PI
 #define M_PI (3.14159265358979323846)
@@ -363,6 +365,40 @@ private:
     qi::rule<Iterator, operand_type(), qi::blank_type>  factor;
 };
 
+namespace {
+
+// parsing and evaluation recurse for every bracket, sign and function whose operand is not complete
+bool nested_too_deeply(const std::string& data)
+{
+    constexpr size_t    max_depth = 500;
+    size_t              depth{};
+    std::vector<size_t> brackets;
+    for (const char c : data)
+    {
+        if (c == '[')
+        {
+            brackets.push_back(depth);
+            ++depth;
+        }
+        else if (c == ']')
+        {
+            depth = brackets.empty() ? 0 : brackets.back();
+            if (!brackets.empty())
+                brackets.pop_back();
+        }
+        else if (std::isdigit(static_cast<unsigned char>(c)))
+            depth = brackets.empty() ? 0 : brackets.back() + 1;
+        else if (c != ' ' && c != '\t')
+            ++depth;
+
+        if (depth > max_depth)
+            return true;
+    }
+    return false;
+}
+
+} // namespace
+
 ValueCalculator::ValueCalculator()
 {
     build_symbols();
@@ -401,6 +437,12 @@ bool ValueCalculator::parse(const std::string& data, std::string& message, bool
 
     bool ret{};
 
+    if (nested_too_deeply(data))
+    {
+        message = make_message(MessageName::ExpressionTooComplex, language);
+        return false;
+    }
+
     calculator<pos_iterator_type> calc(sym);
 
     try
-- 
2.43.0


From 00832e1fb39b97421b6cc7f491535c78be04e085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:21 +0000
Subject: [PATCH 56/84] fix: a length of a message which is no length does not
 end the server

---
 nclangsrv/nclangsrv.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nclangsrv/nclangsrv.cpp b/nclangsrv/nclangsrv.cpp
index 3f5fe1c..0d6e880 100644
--- a/nclangsrv/nclangsrv.cpp
+++ b/nclangsrv/nclangsrv.cpp
@@ -1,4 +1,6 @@
 #include "stdafx.h"
+#include <cstdint>
+#include <limits>
 #include <chrono>
 #include <fstream>
 #include <iostream>
@@ -115,7 +117,9 @@ int main(int argc, char* argv[])
         const auto pos = line.find(content_length);
         if (pos != std::string::npos)
         {
-            length = std::atoi(line.c_str() + pos + content_length.size());
+            // a length which is none (negative, too large) announces no message
+            const auto value = std::atoll(line.c_str() + pos + content_length.size());
+            length           = value > 0 and value <= std::numeric_limits<int32_t>::max() ? static_cast<uint32_t>(value) : 0;
             if (logger)
                 LOGGER << __func__ << ": Content-Length: [" << line << "(" << line.size() << ")"
                        << "], " << length << std::endl;
-- 
2.43.0


From e2204dfd14e2c514c8413478c7e480827d9d2c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:21 +0000
Subject: [PATCH 57/84] fix: descriptions of the control of the settings also
 before the first document

---
 nclangsrv/JsonMessageHandler.cpp | 10 ++++++++++
 nclangsrv/JsonMessageHandler.h   |  1 +
 2 files changed, 11 insertions(+)

diff --git a/nclangsrv/JsonMessageHandler.cpp b/nclangsrv/JsonMessageHandler.cpp
index 34d2988..2ccff4c 100644
--- a/nclangsrv/JsonMessageHandler.cpp
+++ b/nclangsrv/JsonMessageHandler.cpp
@@ -491,10 +491,18 @@ void JsonMessageHandler::textDocument_didClose(const rapidjson::Document& reques
     mFileContexts.erase(textDocument["uri"].GetString());
 }
 
+// the settings say whose descriptions are used, also before the first document is parsed
+void JsonMessageHandler::readSettings()
+{
+    if (!mNcSettingsReader.getNcSettingsPath().empty())
+        mNcSettingsReader.read();
+}
+
 void JsonMessageHandler::fetch_gCodesDesc()
 {
     if (!mGCodes.get())
     {
+        readSettings();
         auto fsRootPath = fs::path(mRootPath);
         auto descPath   = fs::canonical(fsRootPath / fs::path("conf") /
                                       fs::path(parserType_str(mNcSettingsReader.getFanucParserType())) /
@@ -512,6 +520,7 @@ void JsonMessageHandler::fetch_mCodesDesc()
 {
     if (!mMCodes.get())
     {
+        readSettings();
         auto fsRootPath = fs::path(mRootPath);
         auto descPath   = fs::canonical(fsRootPath / fs::path("conf") /
                                       fs::path(parserType_str(mNcSettingsReader.getFanucParserType())) /
@@ -529,6 +538,7 @@ void JsonMessageHandler::fetch_macrosDesc()
 {
     if (!mMacrosDesc.get())
     {
+        readSettings();
         auto fsRootPath = fs::path(mRootPath);
         auto descPath   = fs::canonical(fsRootPath / fs::path("conf") /
                                       fs::path(parserType_str(mNcSettingsReader.getFanucParserType())) /
diff --git a/nclangsrv/JsonMessageHandler.h b/nclangsrv/JsonMessageHandler.h
index c1e45b0..8dc2c4d 100644
--- a/nclangsrv/JsonMessageHandler.h
+++ b/nclangsrv/JsonMessageHandler.h
@@ -57,6 +57,7 @@ private:
     void shutdown(const rapidjson::Document& request);
     void textDocument_publishDiagnostics(const std::string& uri, const std::string& content);
 
+    void readSettings();
     void fetch_gCodesDesc();
     void fetch_mCodesDesc();
     void fetch_macrosDesc();
-- 
2.43.0


From 1e785f386345cb18f8706d7b486cc9cc3cfed7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:27 +0000
Subject: [PATCH 58/84] fix: descriptions of codes which the table of the
 control has with a leading zero

---
 nclangsrv/CodesReader.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nclangsrv/CodesReader.cpp b/nclangsrv/CodesReader.cpp
index aab0b90..140b70c 100644
--- a/nclangsrv/CodesReader.cpp
+++ b/nclangsrv/CodesReader.cpp
@@ -43,6 +43,9 @@ bool CodesReader::read()
                     mData.emplace(std::make_pair(code, std::make_pair(title, desc.get_value<std::string>())));
                 if (addSynonim)
                     mData.emplace(std::make_pair("0" + it->first, it->second));
+                // codes are looked up without leading zeros
+                if (code.size() > 1 && code[0] == '0' && code[1] != '.')
+                    mData.emplace(std::make_pair(code.substr(1), it->second));
             }
             mCodes.emplace_back(code);
             if (addSynonim)
-- 
2.43.0


From 73cccaeb5fe1e35e7328e64cc7ba14986cba070a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:11 +0000
Subject: [PATCH 59/84] fix: the diagnostic of an unfinished line has a text

---
 nclangsrv/JsonMessageHandler.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nclangsrv/JsonMessageHandler.cpp b/nclangsrv/JsonMessageHandler.cpp
index 2ccff4c..5a5d2be 100644
--- a/nclangsrv/JsonMessageHandler.cpp
+++ b/nclangsrv/JsonMessageHandler.cpp
@@ -1194,6 +1194,10 @@ void JsonMessageHandler::textDocument_publishDiagnostics(const std::string& uri,
 
                 result_message = error_message.substr(text_begin);
                 boost::algorithm::trim(result_message);
+
+                // Nothing is left of a line whose last word is unfinished
+                if (result_message.empty())
+                    result_message = "Unexpected end of line";
             }
 
             if (line != 0 or character != 0 or not result_message.empty())
-- 
2.43.0


From b6d243980c28e55879a54f086d8f82ecdc4070de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:11 +0000
Subject: [PATCH 60/84] fix: the diagnostic of a faulty first word is where the
 word is

---
 nclangsrv/NCParser.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nclangsrv/NCParser.cpp b/nclangsrv/NCParser.cpp
index 6007d4c..85efd5b 100644
--- a/nclangsrv/NCParser.cpp
+++ b/nclangsrv/NCParser.cpp
@@ -439,8 +439,11 @@ std::tuple<std::vector<std::string>, fanuc::macro_map, PathTimeResult> NCParser:
             ++line_err;
             if (message.empty())
             {
-                message = data;
-                message = std::to_string(line_nbr) + R"(: ')" + message + R"(')";
+                const auto first = data.find_first_not_of(" \t");
+                message          = data;
+                message          = std::to_string(line_nbr) + ":" +
+                          std::to_string(first == std::string_view::npos ? 1 : first + 1) + R"(: ')" + message +
+                          R"(')";
             }
             else if (message.compare(0, 2, "1:") == 0)
             {
-- 
2.43.0


From 29464fcdb346e6237cd6102008506db8a3b3d8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:54 +0000
Subject: [PATCH 61/84] fix: positions behind characters outside ASCII

---
 nclangsrv/JsonMessageHandler.cpp | 48 +++++++++++++++++++++++++++-----
 1 file changed, 41 insertions(+), 7 deletions(-)

diff --git a/nclangsrv/JsonMessageHandler.cpp b/nclangsrv/JsonMessageHandler.cpp
index 5a5d2be..ad0ade5 100644
--- a/nclangsrv/JsonMessageHandler.cpp
+++ b/nclangsrv/JsonMessageHandler.cpp
@@ -222,6 +222,37 @@ std::string toString(const rapidjson::Value& value)
     return {value.GetString(), value.GetStringLength()};
 }
 
+// Positions of the protocol count UTF-16 code units, the ones of the parser bytes of the UTF-8 text
+size_t utf16Units(unsigned char byte)
+{
+    if ((byte & 0xC0) == 0x80) // continuation of a character
+        return 0;
+    return byte >= 0xF0 ? 2 : 1;
+}
+
+size_t toCharacter(const std::string& text, size_t bytes)
+{
+    size_t character{};
+    for (size_t x = 0; x < bytes; ++x)
+        character += x < text.size() ? utf16Units(static_cast<unsigned char>(text[x])) : 1;
+    return character;
+}
+
+int toBytes(const std::string& text, int character)
+{
+    if (character < 0)
+        return character;
+
+    int bytes{};
+    for (int units = 0; bytes < static_cast<int>(text.size()); ++bytes)
+    {
+        units += static_cast<int>(utf16Units(static_cast<unsigned char>(text[bytes])));
+        if (units > character)
+            break;
+    }
+    return static_cast<int>(text.size()) == bytes ? std::numeric_limits<int>::max() : bytes;
+}
+
 } // namespace
 
 #define LOGGER (*mLogger)()
@@ -716,7 +747,7 @@ void JsonMessageHandler::textDocument_hover(const rapidjson::Document& request)
     const auto& params       = request["params"];
     const auto& position     = params["position"];
     const int   line         = position["line"].GetInt();
-    const int   character    = position["character"].GetInt();
+    int         character    = position["character"].GetInt();
     const auto& textDocument = params["textDocument"];
 
     const std::string uri = textDocument["uri"].GetString();
@@ -745,8 +776,9 @@ void JsonMessageHandler::textDocument_hover(const rapidjson::Document& request)
     }
     else
     {
-        strLine  = it->second.contentLines[line];
-        macroMap = &it->second.macroMap;
+        strLine   = it->second.contentLines[line];
+        character = toBytes(strLine, character);
+        macroMap  = &it->second.macroMap;
     }
 
     rapidjson::Document d;
@@ -787,7 +819,7 @@ void JsonMessageHandler::textDocument_hover(const rapidjson::Document& request)
             }
 
             if (!contents.empty())
-                hoverMakeResult(contents, line, from, to, result, a);
+                hoverMakeResult(contents, line, toCharacter(strLine, from), toCharacter(strLine, to), result, a);
             else
                 result.SetNull();
         }
@@ -827,7 +859,7 @@ void JsonMessageHandler::textDocument_hover(const rapidjson::Document& request)
                     }
 
                     if (!contents.empty())
-                        hoverMakeResult(contents, line, from, to, result, a);
+                        hoverMakeResult(contents, line, toCharacter(strLine, from), toCharacter(strLine, to), result, a);
                     else
                         result.SetNull();
                 }
@@ -868,7 +900,7 @@ void JsonMessageHandler::textDocument_hover(const rapidjson::Document& request)
                         contents += " = undefined";
 
                     if (!contents.empty())
-                        hoverMakeResult(contents, line, from, to, result, a);
+                        hoverMakeResult(contents, line, toCharacter(strLine, from), toCharacter(strLine, to), result, a);
                     else
                         result.SetNull();
                 }
@@ -1128,7 +1160,7 @@ void JsonMessageHandler::textDocument_publishDiagnostics(const std::string& uri,
     std::tie(messages, fileContext.macroMap, fileContext.pathTimeResult) = mParser.parse(content);
 
     mFileContexts.erase(uri);
-    mFileContexts.emplace(std::make_pair(uri, std::move(fileContext)));
+    const auto& contentLines = mFileContexts.emplace(std::make_pair(uri, std::move(fileContext))).first->second.contentLines;
 
     std::string macroDescErr;
     try
@@ -1189,6 +1221,8 @@ void JsonMessageHandler::textDocument_publishDiagnostics(const std::string& uri,
                     character = atoi(error_message.c_str() + text_begin);
                     if (character > 0)
                         character--;
+                    if (static_cast<size_t>(line) < contentLines.size())
+                        character = static_cast<int32_t>(toCharacter(contentLines[line], character));
                     text_begin = character_end + 1;
                 }
 
-- 
2.43.0


From dbb64fe46c421be8d0181735d89b20060e792f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:18 +0000
Subject: [PATCH 62/84] fix: a block that is no block does not repeat an
 earlier message

---
 parser/fanuc/AllAttributesParser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/fanuc/AllAttributesParser.cpp b/parser/fanuc/AllAttributesParser.cpp
index e2bd5ec..01968cc 100644
--- a/parser/fanuc/AllAttributesParser.cpp
+++ b/parser/fanuc/AllAttributesParser.cpp
@@ -213,6 +213,9 @@ bool AllAttributesParser::parse(int line, std::string_view data, std::vector<Att
         all_attr_grammar->clear_message();
         ret = qi::phrase_parse(iter, position_end, *all_attr_grammar, qi::blank, value);
 
+        if (!ret)
+            return false;
+
         UniqueCode()(*active_word_grammar, value, other_settings.language);
 
         if (!parser_settings.evaluate_macro)
-- 
2.43.0


From 0ac05d615ca88747a8c2a62ff7b3632d6c7ca069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:18 +0000
Subject: [PATCH 63/84] fix: error position in substituted values refers to
 text that still exists

---
 parser/fanuc/AllAttributesParser.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/parser/fanuc/AllAttributesParser.cpp b/parser/fanuc/AllAttributesParser.cpp
index 01968cc..8625017 100644
--- a/parser/fanuc/AllAttributesParser.cpp
+++ b/parser/fanuc/AllAttributesParser.cpp
@@ -207,6 +207,7 @@ bool AllAttributesParser::parse(int line, std::string_view data, std::vector<Att
     bool              evaluated_code_part{};
     pos_iterator_type position_begin(data.cbegin()), iter = position_begin, position_end(data.cend());
     pos_iterator_type position_begin2;
+    std::string       evaluated_code; // outlives the try block, the position of an error refers to it
 
     try
     {
@@ -232,7 +233,7 @@ bool AllAttributesParser::parse(int line, std::string_view data, std::vector<Att
 
         std::vector<AttributeVariant> value2;
 
-        auto evaluated_code =
+        evaluated_code =
             MacroEvaluatedCodeVerifier()(allowed_operations, macro_values, line, value, other_settings.language);
         if (!evaluated_code.empty())
         {
@@ -244,6 +245,12 @@ bool AllAttributesParser::parse(int line, std::string_view data, std::vector<Att
             all_attr_grammar->clear_message();
             ret                     = qi::phrase_parse(iter2, position_end2, *all_attr_grammar, qi::blank, value2);
             evaluated_code_part     = false;
+
+            if (!ret)
+            {
+                message = all_attr_grammar->get_message();
+                return false;
+            }
         }
 
         SystemMacroAssigner()(macro_values, line, evaluated_code.empty() ? value : value2);
-- 
2.43.0


From 1fd685b40e7fd3e1f5cb8b55d17c55ddbaabd65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:04 +0000
Subject: [PATCH 64/84] fix: total cutting path of lenses includes blocks that
 take no time

---
 nclangsrv/NCParser.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/nclangsrv/NCParser.cpp b/nclangsrv/NCParser.cpp
index 85efd5b..0bc7a36 100644
--- a/nclangsrv/NCParser.cpp
+++ b/nclangsrv/NCParser.cpp
@@ -393,6 +393,7 @@ std::tuple<std::vector<std::string>, fanuc::macro_map, PathTimeResult> NCParser:
     size_t                   line_err{};
     std::string              text;
     double                   prev_time_total{};
+    double                   prev_path_total{};
     double                   total_work_motion_path{};
     double                   total_work_motion_time{};
     double                   total_fast_motion_path{};
@@ -474,9 +475,9 @@ std::tuple<std::vector<std::string>, fanuc::macro_map, PathTimeResult> NCParser:
         {
             auto pr = ap->get_path_result();
             auto tr = ap->get_time_result();
-            if (tr.total != prev_time_total /*|| pr.fast_motion != 0 || pr.work_motion != 0*/)
+            if (tr.total != prev_time_total || pr.total != prev_path_total)
             {
-                prev_time_total = tr.total;
+                prev_path_total = pr.total;
                 if (pr.fast_motion != 0)
                     total_fast_motion_path += pr.fast_motion;
                 if (tr.fast_motion != 0)
@@ -485,7 +486,10 @@ std::tuple<std::vector<std::string>, fanuc::macro_map, PathTimeResult> NCParser:
                     total_work_motion_path += pr.work_motion;
                 if (tr.work_motion != 0)
                     total_work_motion_time += tr.work_motion;
-
+            }
+            if (tr.total != prev_time_total)
+            {
+                prev_time_total = tr.total;
                 pathTimeResult.emplace_hint(pathTimeResult.end(), line_nbr - 1,
                                             formatPathTimeResult(pr, tr, total_work_motion_path, total_work_motion_time,
                                                                  total_fast_motion_path, total_fast_motion_time));
-- 
2.43.0


From c2d4734af820fd12d5bb10edd7a5be9db27e1d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:13 +0000
Subject: [PATCH 65/84] fix: description of a code written with a dot

---
 nclangsrv/JsonMessageHandler.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nclangsrv/JsonMessageHandler.cpp b/nclangsrv/JsonMessageHandler.cpp
index ad0ade5..c1e65a1 100644
--- a/nclangsrv/JsonMessageHandler.cpp
+++ b/nclangsrv/JsonMessageHandler.cpp
@@ -151,8 +151,12 @@ std::string searchPattern(const std::regex& r, const std::string& contentLine, i
 std::string extractCode(const std::string& data)
 {
     std::string code = data;
-    while (!code.empty() && code.size() > 1 && code[0] == '0')
+    while (code.size() > 1 && code[0] == '0' && code[1] != '.')
         code = code.substr(1);
+    // G1. and G1.0 are G1
+    const auto dot = code.find('.');
+    if (dot != std::string::npos && code.find_first_not_of('0', dot + 1) == std::string::npos)
+        code.erase(dot);
     return code;
 }
 
-- 
2.43.0


From bf141db74889e3b4ba4a0acf28e3fbbb1c49c422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:44 +0000
Subject: [PATCH 66/84] fix: a word behind a variable is no definition of it

---
 parser/fanuc/MacroEvaluator.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/parser/fanuc/MacroEvaluator.cpp b/parser/fanuc/MacroEvaluator.cpp
index 7b63f16..14e1bdb 100644
--- a/parser/fanuc/MacroEvaluator.cpp
+++ b/parser/fanuc/MacroEvaluator.cpp
@@ -25,10 +25,9 @@ public:
             }
             else if (macro != -1)
             {
-                if (data.word == "=")
-                {
-                    was_equal_sign = true;
-                }
+                if (data.word != "=")
+                    return;
+                was_equal_sign = true;
             }
             else
             {
-- 
2.43.0


From 0a8fa1c6503b9f295e0be645d53aaac3d5e29e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:49 +0000
Subject: [PATCH 67/84] fix: descriptions of another control once the settings
 could not be read

---
 nclangsrv/JsonMessageHandler.cpp | 23 +++++++++++++++--------
 nclangsrv/JsonMessageHandler.h   |  2 +-
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/nclangsrv/JsonMessageHandler.cpp b/nclangsrv/JsonMessageHandler.cpp
index c1e65a1..c57be87 100644
--- a/nclangsrv/JsonMessageHandler.cpp
+++ b/nclangsrv/JsonMessageHandler.cpp
@@ -527,17 +527,19 @@ void JsonMessageHandler::textDocument_didClose(const rapidjson::Document& reques
 }
 
 // the settings say whose descriptions are used, also before the first document is parsed
-void JsonMessageHandler::readSettings()
+bool JsonMessageHandler::readSettings()
 {
-    if (!mNcSettingsReader.getNcSettingsPath().empty())
-        mNcSettingsReader.read();
+    return mNcSettingsReader.getNcSettingsPath().empty() || mNcSettingsReader.read();
 }
 
 void JsonMessageHandler::fetch_gCodesDesc()
 {
-    if (!mGCodes.get())
+    if (!mGCodes.get() || mGCodes->getCodes().empty())
     {
-        readSettings();
+        mGCodes = std::make_unique<CodesReader>(std::string{}, mLogger);
+        if (!readSettings())
+            return;
+
         auto fsRootPath = fs::path(mRootPath);
         auto descPath   = fs::canonical(fsRootPath / fs::path("conf") /
                                       fs::path(parserType_str(mNcSettingsReader.getFanucParserType())) /
@@ -553,9 +555,12 @@ void JsonMessageHandler::fetch_gCodesDesc()
 
 void JsonMessageHandler::fetch_mCodesDesc()
 {
-    if (!mMCodes.get())
+    if (!mMCodes.get() || mMCodes->getCodes().empty())
     {
-        readSettings();
+        mMCodes = std::make_unique<CodesReader>(std::string{}, mLogger);
+        if (!readSettings())
+            return;
+
         auto fsRootPath = fs::path(mRootPath);
         auto descPath   = fs::canonical(fsRootPath / fs::path("conf") /
                                       fs::path(parserType_str(mNcSettingsReader.getFanucParserType())) /
@@ -573,7 +578,9 @@ void JsonMessageHandler::fetch_macrosDesc()
 {
     if (!mMacrosDesc.get())
     {
-        readSettings();
+        if (!readSettings())
+            return;
+
         auto fsRootPath = fs::path(mRootPath);
         auto descPath   = fs::canonical(fsRootPath / fs::path("conf") /
                                       fs::path(parserType_str(mNcSettingsReader.getFanucParserType())) /
diff --git a/nclangsrv/JsonMessageHandler.h b/nclangsrv/JsonMessageHandler.h
index 8dc2c4d..9dae00f 100644
--- a/nclangsrv/JsonMessageHandler.h
+++ b/nclangsrv/JsonMessageHandler.h
@@ -57,7 +57,7 @@ private:
     void shutdown(const rapidjson::Document& request);
     void textDocument_publishDiagnostics(const std::string& uri, const std::string& content);
 
-    void readSettings();
+    bool readSettings();
     void fetch_gCodesDesc();
     void fetch_mCodesDesc();
     void fetch_macrosDesc();
-- 
2.43.0


From dc8c40e819a1a9853d8739ca52a7010d1c86206b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:32 +0000
Subject: [PATCH 68/84] fix: SplitFileString left the pointer of an empty part
 uninitialised

---
 parser/fanuc/AllAttributesParserWrapper.cpp      | 2 +-
 parser/heidenhain/AllAttributesParserWrapper.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/fanuc/AllAttributesParserWrapper.cpp b/parser/fanuc/AllAttributesParserWrapper.cpp
index 4313529..903464e 100644
--- a/parser/fanuc/AllAttributesParserWrapper.cpp
+++ b/parser/fanuc/AllAttributesParserWrapper.cpp
@@ -457,7 +457,7 @@ bool AllAttributesParserWrapper::SplitFileString(FileSplittingWrapper* fsw, cons
     auto ret = dynamic_cast<AllAttributesParser*>(parser.get())
                    ->split_file(std::move(str_data), ret_value, msg, single_line_msg, file_splitting);
 
-    *value  = new char*[ret_value.size()];
+    *value  = new char*[ret_value.size()]{}; // the text of an empty part stays null
     *length = static_cast<int>(ret_value.size());
 
     for (size_t x = 0; x < ret_value.size(); ++x)
diff --git a/parser/heidenhain/AllAttributesParserWrapper.cpp b/parser/heidenhain/AllAttributesParserWrapper.cpp
index 2714cb5..cd94ba2 100644
--- a/parser/heidenhain/AllAttributesParserWrapper.cpp
+++ b/parser/heidenhain/AllAttributesParserWrapper.cpp
@@ -397,7 +397,7 @@ bool AllAttributesParserWrapper::SplitFileString(FileSplittingWrapper* fsw, cons
     auto ret = dynamic_cast<AllAttributesParser*>(parser.get())
                    ->split_file(std::move(str_data), ret_value, msg, single_line_msg, file_splitting);
 
-    *value  = new char*[ret_value.size()];
+    *value  = new char*[ret_value.size()]{}; // the text of an empty part stays null
     *length = static_cast<int>(ret_value.size());
 
     for (size_t x = 0; x < ret_value.size(); ++x)
-- 
2.43.0


From 9517caa3ca16e9517f18799be03abc1fee7e1006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:30 +0000
Subject: [PATCH 69/84] fix: place of a problem in the user macro descriptions
 file

---
 nclangsrv/JsonMessageHandler.cpp | 2 +-
 nclangsrv/MacrosDescReader.cpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/nclangsrv/JsonMessageHandler.cpp b/nclangsrv/JsonMessageHandler.cpp
index c57be87..5fbbb58 100644
--- a/nclangsrv/JsonMessageHandler.cpp
+++ b/nclangsrv/JsonMessageHandler.cpp
@@ -96,7 +96,7 @@ rapidjson::Value prepareMacroDescDiagnostic(const std::string& macroDescErr, rap
         rapidjson::Value uri;
         uri.SetString(file.c_str(), static_cast<rapidjson::SizeType>(file.size()), a);
         location.AddMember("uri", uri, a);
-        location.AddMember("range", makeRange(line - 1, 0, 0, a), a);
+        location.AddMember("range", makeRange(line > 0 ? line - 1 : 0, 0, 0, a), a);
 
         relatedInformation.AddMember("location", location, a);
 
diff --git a/nclangsrv/MacrosDescReader.cpp b/nclangsrv/MacrosDescReader.cpp
index a923f2a..add95b8 100644
--- a/nclangsrv/MacrosDescReader.cpp
+++ b/nclangsrv/MacrosDescReader.cpp
@@ -63,7 +63,7 @@ void MacrosDescReader::readJson(const std::string& path)
             LOGGER << "MacrosDescReader::" << __func__ << ": ERR: " << e.what() << std::endl;
             mLogger->flush();
         }
-        throw json_parser_exception(e.what());
+        throw json_parser_exception(path + "(" + std::to_string(e.line()) + "): " + e.message());
     }
     catch (const std::exception& e)
     {
-- 
2.43.0


From 500bdd267b3e402d53b14205e5fba61332dc805f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:20 +0000
Subject: [PATCH 70/84] fix: splitting with a parser made without settings of a
 machine used a null pointer

---
 parser/fanuc/AllAttributesParser.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/parser/fanuc/AllAttributesParser.cpp b/parser/fanuc/AllAttributesParser.cpp
index 8625017..e06903b 100644
--- a/parser/fanuc/AllAttributesParser.cpp
+++ b/parser/fanuc/AllAttributesParser.cpp
@@ -485,6 +485,8 @@ bool AllAttributesParser::split_file(std::vector<std::string>&&
 {
     try
     {
+        const CncDefaultValues cnc_default_values =
+            attr_path_calc ? attr_path_calc->get_cnc_default_values() : CncDefaultValues{};
         FileSplitter fs(file_splitting, other_settings.language);
         if (file_splitting.type == FileSplittingType::text)
         {
@@ -510,6 +512,13 @@ bool AllAttributesParser::split_file(std::vector<std::string>&&
         else if (file_splitting.type == FileSplittingType::work_motion_path ||
                  file_splitting.type == FileSplittingType::work_motion_time)
         {
+            // path and time are not known without the settings of a machine
+            if (!attr_path_calc)
+                throw file_splitter_exception(make_message(file_splitting.type == FileSplittingType::work_motion_path
+                                                               ? MessageName::CannotSplitFileToolPathLength
+                                                               : MessageName::CannotSplitFileToolTime,
+                                                           other_settings.language));
+
             std::vector<PathResult>                    vec_path_result;
             std::vector<TimeResult>                    vec_time_result;
             std::vector<std::vector<AttributeVariant>> vtmp;
@@ -536,10 +545,10 @@ bool AllAttributesParser::split_file(std::vector<std::string>&&
             }
 
             if (file_splitting.type == FileSplittingType::work_motion_path)
-                fs.evaluate(attr_path_calc->get_cnc_default_values(), std::move(vtmp), retraction_plane, value,
+                fs.evaluate(cnc_default_values, std::move(vtmp), retraction_plane, value,
                             vec_path_result);
             else
-                fs.evaluate(attr_path_calc->get_cnc_default_values(), std::move(vtmp), retraction_plane, value,
+                fs.evaluate(cnc_default_values, std::move(vtmp), retraction_plane, value,
                             vec_time_result);
 
             RenumberSettings rs{"N", 1, 1, 99999, false, false};
@@ -567,7 +576,7 @@ bool AllAttributesParser::split_file(std::vector<std::string>&&
                     return false;
             }
 
-            fs.evaluate(attr_path_calc->get_cnc_default_values(), std::move(vtmp), retraction_plane, value);
+            fs.evaluate(cnc_default_values, std::move(vtmp), retraction_plane, value);
 
             RenumberSettings rs{"N", 1, 1, 99999, false, false};
             for (auto& x : value)
-- 
2.43.0


From 72cd457bacfca0a488cd866540e52054a5be64dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:20 +0000
Subject: [PATCH 71/84] fix: judging blocks and asking for results without
 settings of a machine used a null pointer

---
 parser/fanuc/AllAttributesParser.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/parser/fanuc/AllAttributesParser.cpp b/parser/fanuc/AllAttributesParser.cpp
index e06903b..a4b2382 100644
--- a/parser/fanuc/AllAttributesParser.cpp
+++ b/parser/fanuc/AllAttributesParser.cpp
@@ -100,22 +100,26 @@ void AllAttributesParser::init_macro_values()
 
 void AllAttributesParser::reset_attributes_path_calculator()
 {
-    attr_path_calc->reset();
+    if (attr_path_calc)
+        attr_path_calc->reset();
 }
 
 const PathResult& AllAttributesParser::get_path_result() const
 {
-    return attr_path_calc->get_path_result();
+    static const PathResult none{};
+    return attr_path_calc ? attr_path_calc->get_path_result() : none;
 }
 
 const TimeResult& AllAttributesParser::get_time_result() const
 {
-    return attr_path_calc->get_time_result();
+    static const TimeResult none{};
+    return attr_path_calc ? attr_path_calc->get_time_result() : none;
 }
 
 const word_range_map& AllAttributesParser::get_word_range() const
 {
-    return attr_path_calc->get_word_range();
+    static const word_range_map none{};
+    return attr_path_calc ? attr_path_calc->get_word_range() : none;
 }
 
 void AllAttributesParser::set_renumber_start_value(unsigned int value)
@@ -255,7 +259,7 @@ bool AllAttributesParser::parse(int line, std::string_view data, std::vector<Att
 
         SystemMacroAssigner()(macro_values, line, evaluated_code.empty() ? value : value2);
 
-        if (parser_settings.ncsettings_code_analysis)
+        if (parser_settings.ncsettings_code_analysis && attr_path_calc.get())
         {
             RangeVerifier()(machine_tool_type, attr_path_calc->get_kinematics(),
                             evaluated_code.empty() ? value : value2, other_settings.language);
-- 
2.43.0


From 29e2da6fe62de555f5955ee7eb1cddc730c45de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:49 +0000
Subject: [PATCH 72/84] fix: the configuration tool was started where it is not
 supported

---
 vscode-client/src/extension.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vscode-client/src/extension.ts b/vscode-client/src/extension.ts
index 9a2d51f..6e4f2ee 100644
--- a/vscode-client/src/extension.ts
+++ b/vscode-client/src/extension.ts
@@ -349,6 +349,7 @@ function registerCmdNcsettingCreate(context: ExtensionContext) {
     const disposable = commands.registerCommand("ncproj.ncsettingCreate", () => {
         if (process.platform != "win32") {
             window.showInformationMessage("Function not supported.");
+            return;
         }
         if (cmtConfigRunning) {
             window.showInformationMessage("Configuration window is already running!");
-- 
2.43.0


From 2f435aecf3e0949dbbf0615882e2657f7b458cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:49 +0000
Subject: [PATCH 73/84] fix: the configuration tool did not start from a path
 with spaces

---
 vscode-client/src/extension.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vscode-client/src/extension.ts b/vscode-client/src/extension.ts
index 6e4f2ee..8494dd4 100644
--- a/vscode-client/src/extension.ts
+++ b/vscode-client/src/extension.ts
@@ -355,7 +355,7 @@ function registerCmdNcsettingCreate(context: ExtensionContext) {
             window.showInformationMessage("Configuration window is already running!");
         } else {
             const options = { cwd: currentWorkingDirectory };
-            execShell(exeCmtconfigPath, options);
+            execShell('"' + exeCmtconfigPath + '"', options);
         }
     });
 
-- 
2.43.0


From 054cfc2f1bbea3f2e3f24004e8c9b82ffc16ce56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:49 +0000
Subject: [PATCH 74/84] fix: a change of a setting was missed after one that
 had changed nothing

---
 vscode-client/src/extension.ts | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/vscode-client/src/extension.ts b/vscode-client/src/extension.ts
index 8494dd4..d8cdf48 100644
--- a/vscode-client/src/extension.ts
+++ b/vscode-client/src/extension.ts
@@ -30,6 +30,7 @@ import {
     StatusBarItem,
     StatusBarAlignment,
     OutputChannel,
+    WorkspaceConfiguration,
 } from "vscode";
 import { LanguageClientOptions } from "vscode-languageclient";
 import { LanguageClient, ServerOptions } from "vscode-languageclient/node";
@@ -177,6 +178,21 @@ function stem(ncsettingFilePath: string) {
 // i.e.: we can ignore changes when we know we'll be doing them prior to starting the language server.
 let ignoreNextConfigurationChange = false;
 
+// there is no change to ignore when the value is what it was before
+async function updateConfiguration(
+    config: WorkspaceConfiguration,
+    property: string,
+    value: string | boolean,
+    target: ConfigurationTarget
+) {
+    ignoreNextConfigurationChange = true;
+    try {
+        await config.update(property, value, target);
+    } finally {
+        ignoreNextConfigurationChange = false;
+    }
+}
+
 function startListeningConfigurationChanges() {
     workspace.onDidChangeConfiguration((event) => {
         if (ignoreNextConfigurationChange) {
@@ -261,8 +277,7 @@ function askFilePath(
                             configurationTarget = ConfigurationTarget.Global;
                         }
                         const config = workspace.getConfiguration("ncproj");
-                        ignoreNextConfigurationChange = true;
-                        config.update(configProperty, onfulfilled[0].fsPath, configurationTarget);
+                        await updateConfiguration(config, configProperty, onfulfilled[0].fsPath, configurationTarget);
                         askReloadWindow(
                             'Please use the "Reload Window" action for setting ' +
                                 onfulfilled[0].fsPath +
@@ -363,12 +378,11 @@ function registerCmdNcsettingCreate(context: ExtensionContext) {
 }
 
 function registerCmdTogglePathTimeCalculation(context: ExtensionContext) {
-    const disposable = commands.registerCommand("ncproj.togglePathTimeCalculation", () => {
+    const disposable = commands.registerCommand("ncproj.togglePathTimeCalculation", async () => {
         const config = workspace.getConfiguration("ncproj");
         const calculatePathTime = config.get<boolean>("calculate.pathtime.enable");
 
-        ignoreNextConfigurationChange = true;
-        config.update("calculate.pathtime.enable", !calculatePathTime, ConfigurationTarget.Global);
+        await updateConfiguration(config, "calculate.pathtime.enable", !calculatePathTime, ConfigurationTarget.Global);
         askReloadWindow('Please use the "Reload Window" action for setting to take effect.');
     });
 
-- 
2.43.0


From c255faaccf40afcb46992a3b6d9a41c2a91e0081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:49 +0000
Subject: [PATCH 75/84] fix: name of a settings file that has its extension
 inside too

---
 vscode-client/src/extension.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vscode-client/src/extension.ts b/vscode-client/src/extension.ts
index d8cdf48..8b45eaa 100644
--- a/vscode-client/src/extension.ts
+++ b/vscode-client/src/extension.ts
@@ -172,7 +172,7 @@ function stem(ncsettingFilePath: string) {
     const normalized = path.normalize(ncsettingFilePath);
     const filename = path.basename(normalized);
     const ext = path.extname(normalized);
-    return filename.replace(ext, "");
+    return path.basename(filename, ext);
 }
 
 // i.e.: we can ignore changes when we know we'll be doing them prior to starting the language server.
-- 
2.43.0


From 0e5bb8607207bc3f88d163c3a6bf8deb87c349af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:52 +0000
Subject: [PATCH 76/84] fix: a dot without digits in an unfinished address
 ended the handling of the document

'X[.' or 'F[.' made std::stod throw in the path calculation: the document got
no diagnostics and no code lenses.
---
 parser/fanuc/AttributesPathCalculator.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index 9e890f0..d778f35 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -70,7 +70,7 @@ public:
 
         if (itor != std::cend(gcode_params))
         {
-            if (!data.value && !data.dot)
+            if (!data.value && !data.value2)
                 return;
             std::string tmp;
             // if(data.assign)
@@ -100,7 +100,7 @@ public:
         }
         else if (data.word == "F")
         {
-            if (!data.value && !data.dot)
+            if (!data.value && !data.value2)
                 return;
             std::string tmp;
             if (data.value)
@@ -115,7 +115,7 @@ public:
         }
         else if (data.word == "S")
         {
-            if (!data.value && !data.dot)
+            if (!data.value && !data.value2)
                 return;
             std::string tmp;
             if (data.value)
-- 
2.43.0


From c3ab0e38c1d747745f3c3ff5410abeb0360d6795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:30 +0000
Subject: [PATCH 77/84] fix: a negative dwell does not reduce the time

---
 parser/fanuc/AttributesPathCalculator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index d778f35..8e12fca 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -608,7 +608,7 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
         {
             if (const auto it = values.find(address); it != std::cend(values))
             {
-                time_result.total += it->second;
+                time_result.total += std::max(0., it->second); // no dwell gives time back
                 values.erase(it); // the time of a dwell is not a position
             }
         }
-- 
2.43.0


From f091e7d0f303a98b651980060db93fdeb4d74df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:30 +0000
Subject: [PATCH 78/84] fix: a peck drilling cycle without a peck has no path,
 and the sign of a peck is ignored

---
 parser/fanuc/AttributesPathCalculator.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index 8e12fca..119c661 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -1256,16 +1256,19 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
                 const auto qit = cycle_values.find("Q");
                 if (qit == std::end(cycle_values))
                     throw path_calc_exception(make_message(MessageName::MissingValue, language, "Q"));
+                const auto peck = std::abs(qit->second); // the sign of the peck is ignored
+                if (peck == 0. && (current_g == 73 || current_g == 83))
+                    throw path_calc_exception(make_message(MessageName::MissingValue, language, "Q"));
                 if (current_g9091 == EProgrammingType::Incremental)
                 {
                     ret = func_drill_cycle_qparam_incr(!zgleb_is_lathe_without_Y ? zglebit->second : 0.0, rit->second,
-                                                       qit->second, static_cast<EDrillGmode>(current_g),
+                                                       peck, static_cast<EDrillGmode>(current_g),
                                                        current_g_return);
                 }
                 else
                 {
                     ret = func_drill_cycle_qparam(zit_prev->second, !zgleb_is_lathe_without_Y ? zglebit->second : 0.0,
-                                                  rit->second, qit->second, cnc_default_values.drill_cycle_z_value,
+                                                  rit->second, peck, cnc_default_values.drill_cycle_z_value,
                                                   static_cast<EDrillGmode>(current_g), current_g_return);
                 }
             }
-- 
2.43.0


From 800b7025f7dcc37c1c88319839b064a663352fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:30 +0000
Subject: [PATCH 79/84] fix: the path of a peck drilling cycle with very many
 pecks overflows

---
 parser/fanuc/PathCalculator.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/parser/fanuc/PathCalculator.cpp b/parser/fanuc/PathCalculator.cpp
index 7e2355a..bda23c8 100644
--- a/parser/fanuc/PathCalculator.cpp
+++ b/parser/fanuc/PathCalculator.cpp
@@ -513,8 +513,7 @@ std::pair<double, double> PathCalculator::DrillCyclePath_G17(double Zpre, double
             auto dparam                = Qparam / 5;
             auto Cycle_distance_Linear = Qparam * liczbaprzejsc + dparam * liczbaprzejsc + resztagleb;
             auto sumaQ                 = liczbaprzejsc * liczbaprzejsc + liczbaprzejsc;
-            int  liczbaQ               = static_cast<int>(sumaQ);
-            auto Cycle_distance        = liczbaQ * Qparam + mnoznikG98G99 * std::abs(Zpre - Rparam);
+            auto Cycle_distance        = sumaQ * Qparam + mnoznikG98G99 * std::abs(Zpre - Rparam);
             if (resztagleb > 0)
             {
                 Cycle_distance = Cycle_distance + 2 * Gleb_rzeczyw;
@@ -536,8 +535,7 @@ std::pair<double, double> PathCalculator::DrillCyclePath_G17(double Zpre, double
             auto dparam                = Qparam / 5;
             auto Cycle_distance_Linear = Qparam * liczbaprzejsc + dparam * liczbaprzejsc + resztagleb;
             auto sumaQ                 = liczbaprzejsc * liczbaprzejsc + liczbaprzejsc;
-            int  liczbaQ               = static_cast<int>(sumaQ);
-            auto Cycle_distance        = liczbaQ * Qparam + mnoznikG98G99 * std::abs(Zpre - Rparam);
+            auto Cycle_distance        = sumaQ * Qparam + mnoznikG98G99 * std::abs(Zpre - Rparam);
             if (resztagleb > 0)
             {
                 Cycle_distance = Cycle_distance + 2 * Gleb_rzeczyw;
@@ -641,8 +639,7 @@ std::pair<double, double> PathCalculator::DrillCyclePath_G17(double Zgleb, doubl
         const auto dparam                = Qparam / 5;
         const auto Cycle_distance_Linear = Gleb_rzeczyw + dparam * liczbaprzejsc;
         const auto sumaQ                 = liczbaprzejsc * liczbaprzejsc + liczbaprzejsc;
-        const int  liczbaQ               = static_cast<int>(sumaQ);
-        auto       Cycle_distance        = liczbaQ * Qparam + mnoznikG98G99 * std::abs(Rparam);
+        auto       Cycle_distance        = sumaQ * Qparam + mnoznikG98G99 * std::abs(Rparam);
         if (resztagleb > 0)
             Cycle_distance = Cycle_distance + 2 * Gleb_rzeczyw;
         const auto Cycle_distance_Rapid = Cycle_distance - Cycle_distance_Linear;
-- 
2.43.0


From ab3cb7632e70baba5fe80aaec59d2888e2369ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:30 +0000
Subject: [PATCH 80/84] fix: a spiral without radius, turns or pitch ended the
 statistics of the program

---
 parser/fanuc/AttributesPathCalculator.cpp | 3 +++
 parser/fanuc/PathCalculator.cpp           | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index 119c661..7eb471a 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -959,6 +959,9 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
             if (!j)
                 throw path_calc_exception(make_message(MessageName::MissingValue, language, param2));
 
+            if (q && *q == 0.)
+                throw path_calc_exception(make_message(MessageName::MissingValue, language, "Q"));
+
             if (q)
                 path_result.work_motion = gfunc_helix_archimedes_q(*i, *j, *q);
             else
diff --git a/parser/fanuc/PathCalculator.cpp b/parser/fanuc/PathCalculator.cpp
index bda23c8..11b77cb 100644
--- a/parser/fanuc/PathCalculator.cpp
+++ b/parser/fanuc/PathCalculator.cpp
@@ -338,6 +338,9 @@ double PathCalculator::G2G3_HelixG17_ArchimedesQparam(double Icur, double Jcur,
 
 double PathCalculator::G2G3_Helix_Archimedes(double Lparam, double HRadius)
 {
+    if (HRadius == 0. || Lparam == 0.)
+        return HRadius; // no turns: the way to the centre
+
     const auto aparam   = HRadius / (Lparam * 2 * M_PI);
     const auto LArchmds = aparam / 2 *
                           (Lparam * 2 * M_PI * std::sqrt(1 + std::pow(Lparam * 2 * M_PI, 2)) +
-- 
2.43.0


From 3594b30a10f718858a3e704017ed23aa68259afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:49 +0000
Subject: [PATCH 81/84] fix: a value between -1 and 0 where the grammar allows
 no negative value

---
 parser/fanuc/AllAttributesParserGrammar.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/parser/fanuc/AllAttributesParserGrammar.h b/parser/fanuc/AllAttributesParserGrammar.h
index ae5015f..b98664f 100644
--- a/parser/fanuc/AllAttributesParserGrammar.h
+++ b/parser/fanuc/AllAttributesParserGrammar.h
@@ -255,6 +255,15 @@ bool verify_range(const word_map* active_word_grammar, const AttributeDataDecima
         return false;
     }
 
+    // the integral part of -0.5 does not tell that the value is negative
+    if (data.sign && *data.sign == '-' && value2 > 0 && grammar.range_from >= 0)
+    {
+        message += make_message(MessageName::ValueNotInRange, language,
+                                "-" + (data.value ? *data.value : std::string{"0"}) + "." + *data.value2,
+                                std::to_string(grammar.range_from), std::to_string(grammar.range_to), grammar.word);
+        return false;
+    }
+
     return true;
 }
 
-- 
2.43.0


From 86fc60b1b2d6a1f41ececc59eeaec8f7048d72a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:15 +0000
Subject: [PATCH 82/84] fix: a division in the brackets of a condition is no
 optional block

---
 parser/fanuc/AllAttributesParserGrammar.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parser/fanuc/AllAttributesParserGrammar.h b/parser/fanuc/AllAttributesParserGrammar.h
index b98664f..e545497 100644
--- a/parser/fanuc/AllAttributesParserGrammar.h
+++ b/parser/fanuc/AllAttributesParserGrammar.h
@@ -67,6 +67,7 @@ struct status
     bool was_macro_equal;
     int  open_bracket;
     int  close_bracket;
+    int  depth; // of the brackets, those of functions too
 };
 
 template <typename T>
@@ -106,6 +107,10 @@ bool verify_range(const word_map* active_word_grammar, const AttributeDataDecima
 {
     const word_map& word_grammar = *active_word_grammar;
 
+    const bool in_brackets = st.depth > 0;
+    st.depth += data.open_bracket ? static_cast<int>((*data.open_bracket).size()) : 0;
+    st.depth -= data.close_bracket ? static_cast<int>((*data.close_bracket).size()) : 0;
+
     if (data.open_bracket)
         st.open_bracket += static_cast<int>((*data.open_bracket).size());
 
@@ -141,7 +146,7 @@ bool verify_range(const word_map* active_word_grammar, const AttributeDataDecima
 
     if (data.word == "/")
     {
-        if (!st.was_macro) // meaning this should be optional block
+        if (!st.was_macro && !in_brackets) // meaning this should be optional block
         {
             if (data.value)
             {
-- 
2.43.0


From c6466132972c0cbec68bf1b4bf54999869334177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:39 +0000
Subject: [PATCH 83/84] fix: brackets that do not pair and missing operands are
 reported outside of assignments too

---
 parser/fanuc/AllAttributesParser.cpp | 57 ++++++++++++++++++++++++++++
 parser/fanuc/MessageText.h           |  1 +
 parser/fanuc/MessageText_en.cpp      |  1 +
 parser/fanuc/MessageText_pl.cpp      |  1 +
 4 files changed, 60 insertions(+)

diff --git a/parser/fanuc/AllAttributesParser.cpp b/parser/fanuc/AllAttributesParser.cpp
index a4b2382..d4d33f1 100644
--- a/parser/fanuc/AllAttributesParser.cpp
+++ b/parser/fanuc/AllAttributesParser.cpp
@@ -5,6 +5,7 @@
 
 #include "AllAttributesParser.h"
 
+#include <algorithm>
 #include <array>
 #include <sstream>
 #include <string>
@@ -45,6 +46,53 @@
 namespace parser {
 namespace fanuc {
 
+namespace {
+
+// Tells whether the brackets of a block pair and whether no operand is missing
+class CompletenessVisitor : public boost::static_visitor<>
+{
+public:
+    void operator()(const DecimalAttributeData& data)
+    {
+        const auto is = [&](const auto& words) {
+            return std::find(std::cbegin(words), std::cend(words), data.word) != std::cend(words);
+        };
+
+        if (operand_missing && !is(functions) && !(may_be_signed && is(signs)))
+            complete = false;
+
+        depth += data.open_bracket ? static_cast<int>((*data.open_bracket).size()) : 0;
+        operand_missing = !data.value && !data.value2 && !(data.word == "/" && depth == 0);
+        may_be_signed   = data.open_bracket || data.sign;
+        depth -= data.close_bracket ? static_cast<int>((*data.close_bracket).size()) : 0;
+
+        if (depth < 0 || (data.close_bracket && operand_missing))
+            complete = false;
+    }
+
+    template <typename T>
+    void operator()(const T&)
+    {
+    }
+
+    bool is_complete() const
+    {
+        return complete && depth == 0 && !operand_missing;
+    }
+
+private:
+    static constexpr std::array<std::string_view, 11> functions{"SIN", "COS",   "TAN", "ATAN", "SQRT", "ABS",
+                                                                "BIN", "ROUND", "FIX", "FUP",  "BCD"};
+    static constexpr std::array<std::string_view, 2>  signs{"+", "-"};
+
+    int  depth{};
+    bool operand_missing{};
+    bool may_be_signed{};
+    bool complete{true};
+};
+
+} // namespace
+
 AllAttributesParser::AllAttributesParser(FanucWordGrammar&& grammar, std::vector<std::string>&& operations,
                                          code_groups_map&& gcodes, code_groups_map&& mcodes,
                                          ParserSettings&& parser_settings, OtherSettings&& other_settings,
@@ -221,6 +269,15 @@ bool AllAttributesParser::parse(int line, std::string_view data, std::vector<Att
         if (!ret)
             return false;
 
+        CompletenessVisitor completeness;
+        for (const auto& attribute : value)
+            boost::apply_visitor(completeness, attribute);
+        if (!completeness.is_complete())
+        {
+            message = make_message(MessageName::IncompleteExpression, other_settings.language);
+            return false;
+        }
+
         UniqueCode()(*active_word_grammar, value, other_settings.language);
 
         if (!parser_settings.evaluate_macro)
diff --git a/parser/fanuc/MessageText.h b/parser/fanuc/MessageText.h
index b1f2549..3a72e35 100644
--- a/parser/fanuc/MessageText.h
+++ b/parser/fanuc/MessageText.h
@@ -46,6 +46,7 @@ enum class MessageName
     SNotAllowedWhenOperatorTurnsRotation,
     M3M4NotAllowedWhenOperatorTurnsRotation,
     NonMatchingCloseBracket,
+    IncompleteExpression,
 
     COUNT // must be last
 };
diff --git a/parser/fanuc/MessageText_en.cpp b/parser/fanuc/MessageText_en.cpp
index 6835e84..782e268 100644
--- a/parser/fanuc/MessageText_en.cpp
+++ b/parser/fanuc/MessageText_en.cpp
@@ -41,6 +41,7 @@ const MessageText message_text_en[] = {
     {MessageName::SNotAllowedWhenOperatorTurnsRotation, {"Address S not allowed when Operator turns on rotation"}},
     {MessageName::M3M4NotAllowedWhenOperatorTurnsRotation, {"M3/M4 not allowed when Operator turns on rotation"}},
     {MessageName::NonMatchingCloseBracket, {"Non matching close bracket"}},
+    {MessageName::IncompleteExpression, {"Incomplete expression"}},
 };
 
 const MessageText (&get_message_text_en())[static_cast<int>(MessageName::COUNT)]
diff --git a/parser/fanuc/MessageText_pl.cpp b/parser/fanuc/MessageText_pl.cpp
index 80ae693..f1167d4 100644
--- a/parser/fanuc/MessageText_pl.cpp
+++ b/parser/fanuc/MessageText_pl.cpp
@@ -49,6 +49,7 @@ const MessageText message_text_pl[] = {
     {MessageName::SNotAllowedWhenOperatorTurnsRotation, {u8"Niedozwolony adres S gdy obroty włącza Operator"_C}},
     {MessageName::M3M4NotAllowedWhenOperatorTurnsRotation, {u8"Niedozwolony M3/M4 gdy obroty włącza Operator"_C}},
     {MessageName::NonMatchingCloseBracket, {u8"Niedopasowany nawias zamykający"_C}},
+    {MessageName::IncompleteExpression, {u8"Niepełne wyrażenie"_C}},
 };
 
 const MessageText (&get_message_text_pl())[static_cast<int>(MessageName::COUNT)]
-- 
2.43.0


From 37630951d21a5df6e2614b6242c5dcce00db54c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:26 +0000
Subject: [PATCH 84/84] fix: a variable is no number of an optional block

---
 parser/fanuc/AllAttributesParserGrammar.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parser/fanuc/AllAttributesParserGrammar.h b/parser/fanuc/AllAttributesParserGrammar.h
index e545497..ef33f73 100644
--- a/parser/fanuc/AllAttributesParserGrammar.h
+++ b/parser/fanuc/AllAttributesParserGrammar.h
@@ -132,7 +132,9 @@ bool verify_range(const word_map* active_word_grammar, const AttributeDataDecima
         return false;
     }
 
-    if (data.macro)
+    const bool optional_block = data.word == "/" && !st.was_macro && !in_brackets;
+
+    if (data.macro && !optional_block)
     {
         if (!data.value)
         {
@@ -146,7 +148,7 @@ bool verify_range(const word_map* active_word_grammar, const AttributeDataDecima
 
     if (data.word == "/")
     {
-        if (!st.was_macro && !in_brackets) // meaning this should be optional block
+        if (optional_block)
         {
             if (data.value)
             {
-- 
2.43.0

