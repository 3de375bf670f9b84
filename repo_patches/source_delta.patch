From 3098f67d4ee3b19b6e67ff282c724c64bfa6377e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:13 +0000
Subject: [PATCH 01/36] fix: end the server when its input is closed

---
 nclangsrv/nclangsrv.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/nclangsrv/nclangsrv.cpp b/nclangsrv/nclangsrv.cpp
index 1d25f86..61c79bf 100644
--- a/nclangsrv/nclangsrv.cpp
+++ b/nclangsrv/nclangsrv.cpp
@@ -121,6 +121,13 @@ int main(int argc, char* argv[])
                 break;
         }
 
+        if (not std::cin)
+        {
+            if (logger)
+                LOGGER << __func__ << ": End of input" << std::endl;
+            break;
+        }
+
         if (str.empty())
             continue;
 
-- 
2.43.0


From ccccdc71c1350070788b26eb8ec2807bc65f0afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:13 +0000
Subject: [PATCH 02/36] fix: keep serving after an exception raised while
 handling a message

---
 nclangsrv/nclangsrv.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/nclangsrv/nclangsrv.cpp b/nclangsrv/nclangsrv.cpp
index 61c79bf..a7e5e17 100644
--- a/nclangsrv/nclangsrv.cpp
+++ b/nclangsrv/nclangsrv.cpp
@@ -1,5 +1,6 @@
 #include "stdafx.h"
 #include <chrono>
+#include <exception>
 #include <fstream>
 #include <iostream>
 #include <string>
@@ -169,7 +170,21 @@ int main(int argc, char* argv[])
         if (logger)
             LOGGER << __func__ << ": " << buffer << std::endl;
 
-        jsonMessageHandler.parse(buffer);
+        try
+        {
+            jsonMessageHandler.parse(buffer);
+        }
+        catch (const std::exception& e)
+        {
+            if (logger)
+                LOGGER << __func__ << ": ERR: " << e.what() << std::endl;
+        }
+        catch (...)
+        {
+            if (logger)
+                LOGGER << __func__ << ": ERR: unknown exception" << std::endl;
+        }
+
         if (jsonMessageHandler.exit())
         {
             if (logger)
-- 
2.43.0


From 7f882a18e926ca6024adbec75625a0c3556dea2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:13 +0000
Subject: [PATCH 03/36] fix: do not use the logger of the macro descriptions
 reader when there is none

---
 nclangsrv/MacrosDescReader.cpp | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/nclangsrv/MacrosDescReader.cpp b/nclangsrv/MacrosDescReader.cpp
index 2674376..17a93f8 100644
--- a/nclangsrv/MacrosDescReader.cpp
+++ b/nclangsrv/MacrosDescReader.cpp
@@ -102,14 +102,20 @@ void MacrosDescReader::readRanges()
                 }
                 catch (const std::invalid_argument& e)
                 {
-                    LOGGER << "MacrosDescReader::" << __func__ << ": ERR: " << e.what() << std::endl;
-                    mLogger->flush();
+                    if (mLogger)
+                    {
+                        LOGGER << "MacrosDescReader::" << __func__ << ": ERR: " << e.what() << std::endl;
+                        mLogger->flush();
+                    }
                     continue;
                 }
                 catch (const std::out_of_range& e)
                 {
-                    LOGGER << "MacrosDescReader::" << __func__ << ": ERR: " << e.what() << std::endl;
-                    mLogger->flush();
+                    if (mLogger)
+                    {
+                        LOGGER << "MacrosDescReader::" << __func__ << ": ERR: " << e.what() << std::endl;
+                        mLogger->flush();
+                    }
                     continue;
                 }
 
@@ -134,14 +140,20 @@ MacrosDescReader::MacroDescPair MacrosDescReader::getDesc(const std::string& cod
     }
     catch (const std::invalid_argument& e)
     {
-        LOGGER << "MacrosDescReader::" << __func__ << ": ERR: " << e.what() << std::endl;
-        mLogger->flush();
+        if (mLogger)
+        {
+            LOGGER << "MacrosDescReader::" << __func__ << ": ERR: " << e.what() << std::endl;
+            mLogger->flush();
+        }
         return {};
     }
     catch (const std::out_of_range& e)
     {
-        LOGGER << "MacrosDescReader::" << __func__ << ": ERR: " << e.what() << std::endl;
-        mLogger->flush();
+        if (mLogger)
+        {
+            LOGGER << "MacrosDescReader::" << __func__ << ": ERR: " << e.what() << std::endl;
+            mLogger->flush();
+        }
         return {};
     }
 
-- 
2.43.0


From 50c18232cb92a57e7b3ae931f24095fbd6dde1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:40 +0000
Subject: [PATCH 04/36] fix: answer a hover over a macro number that does not
 fit an int

---
 nclangsrv/JsonMessageHandler.cpp | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/nclangsrv/JsonMessageHandler.cpp b/nclangsrv/JsonMessageHandler.cpp
index df2fb44..f1063bc 100644
--- a/nclangsrv/JsonMessageHandler.cpp
+++ b/nclangsrv/JsonMessageHandler.cpp
@@ -6,6 +6,7 @@
 #include <filesystem>
 #include <iostream>
 #include <memory>
+#include <optional>
 #include <regex>
 #include <sstream>
 #include <thread>
@@ -48,6 +49,19 @@ rapidjson::Value makeRange(int line, size_t from, size_t to, rapidjson::Document
     return range;
 }
 
+// Number made of the given digits, nothing when there are more of them than an int can hold.
+std::optional<int> toNumber(const std::string& code)
+{
+    try
+    {
+        return std::stoi(code);
+    }
+    catch (const std::out_of_range&)
+    {
+        return {};
+    }
+}
+
 rapidjson::Value prepareMacroDescDiagnostic(const std::string& macroDescErr, rapidjson::Document::AllocatorType& a)
 {
     std::string file;
@@ -59,7 +73,7 @@ rapidjson::Value prepareMacroDescDiagnostic(const std::string& macroDescErr, rap
     if (std::regex_search(macroDescErr, m, r) and m.size() == 4)
     {
         file = m[1].str();
-        line = std::stoi(m[2].str());
+        line = toNumber(m[2].str()).value_or(1);
         msg  = m[3].str();
     }
     else
@@ -690,9 +704,10 @@ void JsonMessageHandler::textDocument_hover(const rapidjson::Document& request)
             {
                 std::string code = extractCode(contents.substr(2));
 
-                auto macroId = static_cast<decltype(parser::fanuc::macro_map_key::id)>(std::stoi(code));
+                const auto number  = toNumber(code);
+                const auto macroId = static_cast<decltype(parser::fanuc::macro_map_key::id)>(number.value_or(0));
 
-                auto itm = macroMap->lower_bound({macroId, line + 1});
+                auto itm = number ? macroMap->lower_bound({macroId, line + 1}) : macroMap->end();
                 if (itm != macroMap->cend() && itm->first.id == macroId)
                 {
                     fetch_gCodesDesc();
@@ -732,12 +747,13 @@ void JsonMessageHandler::textDocument_hover(const rapidjson::Document& request)
 
                 if (!contents.empty())
                 {
-                    auto code    = extractCode(contents.substr(1));
-                    auto macroId = static_cast<decltype(parser::fanuc::macro_map_key::id)>(std::stoi(code));
+                    auto       code    = extractCode(contents.substr(1));
+                    const auto number  = toNumber(code);
+                    const auto macroId = static_cast<decltype(parser::fanuc::macro_map_key::id)>(number.value_or(0));
 
                     bool exist{};
 
-                    auto it = macroMap->lower_bound({macroId, line + 1});
+                    auto it = number ? macroMap->lower_bound({macroId, line + 1}) : macroMap->end();
                     if (it != macroMap->cend() && it->first.id == macroId)
                     {
                         exist    = true;
-- 
2.43.0


From 3de8c716c1b86b9241719c6ae83cce31542f42bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:38 +0000
Subject: [PATCH 05/36] fix: load code descriptions before
 completionItem/resolve and hover use them

---
 nclangsrv/JsonMessageHandler.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/nclangsrv/JsonMessageHandler.cpp b/nclangsrv/JsonMessageHandler.cpp
index f1063bc..6b66860 100644
--- a/nclangsrv/JsonMessageHandler.cpp
+++ b/nclangsrv/JsonMessageHandler.cpp
@@ -552,6 +552,8 @@ void JsonMessageHandler::completionItem_resolve(const rapidjson::Document& reque
             {
                 if (label[0] == 'G' || label[0] == 'g')
                 {
+                    fetch_gCodesDesc();
+
                     auto it = mGCodes->getDesc().find(label.substr(1));
                     if (it != mGCodes->getDesc().cend())
                     {
@@ -561,6 +563,8 @@ void JsonMessageHandler::completionItem_resolve(const rapidjson::Document& reque
                 }
                 else if (label[0] == 'M' || label[0] == 'm')
                 {
+                    fetch_mCodesDesc();
+
                     auto it = mMCodes->getDesc().find(label.substr(1));
                     if (it != mMCodes->getDesc().cend())
                     {
@@ -570,7 +574,8 @@ void JsonMessageHandler::completionItem_resolve(const rapidjson::Document& reque
                 }
                 else if (label[0] == '#')
                 {
-                    std::tie(title, desc) = mMacrosDesc->getDesc(label.substr(1));
+                    if (mMacrosDesc)
+                        std::tie(title, desc) = mMacrosDesc->getDesc(label.substr(1));
                 }
             }
 
@@ -760,7 +765,8 @@ void JsonMessageHandler::textDocument_hover(const rapidjson::Document& request)
                         contents = contents + " = " + parser::to_string_trunc(it->second);
                     }
 
-                    auto [macroTitle, macroDesc] = mMacrosDesc->getDesc(code);
+                    auto [macroTitle, macroDesc] =
+                        mMacrosDesc ? mMacrosDesc->getDesc(code) : MacrosDescReader::MacroDescPair{};
                     if (not macroTitle.empty() or not macroDesc.empty())
                     {
                         exist    = true;
-- 
2.43.0


From f520f658a3e1367d676cc9f14df318b46d5a1f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:07 +0000
Subject: [PATCH 06/36] fix: place a diagnostic on its line whatever the text
 of the line

---
 nclangsrv/NCParser.cpp | 25 ++++++++-----------------
 1 file changed, 8 insertions(+), 17 deletions(-)

diff --git a/nclangsrv/NCParser.cpp b/nclangsrv/NCParser.cpp
index c867542..6007d4c 100644
--- a/nclangsrv/NCParser.cpp
+++ b/nclangsrv/NCParser.cpp
@@ -392,7 +392,6 @@ std::tuple<std::vector<std::string>, fanuc::macro_map, PathTimeResult> NCParser:
     size_t                   line_nbr{};
     size_t                   line_err{};
     std::string              text;
-    const std::string        line_str("line 1");
     double                   prev_time_total{};
     double                   total_work_motion_path{};
     double                   total_work_motion_time{};
@@ -438,26 +437,18 @@ std::tuple<std::vector<std::string>, fanuc::macro_map, PathTimeResult> NCParser:
         if (!ret)
         {
             ++line_err;
-            auto pos = message.find(line_str);
-            if (pos != std::string::npos)
+            if (message.empty())
             {
-                message.replace(pos, line_str.size(), "line " + std::to_string(line_nbr));
+                message = data;
+                message = std::to_string(line_nbr) + R"(: ')" + message + R"(')";
+            }
+            else if (message.compare(0, 2, "1:") == 0)
+            {
+                message = std::to_string(line_nbr) + message.substr(1);
             }
             else
             {
-                if (message.empty())
-                {
-                    message = data;
-                    message = std::to_string(line_nbr) + R"(: ')" + message + R"(')";
-                }
-                else if (message[0] == '1')
-                {
-                    message = std::to_string(line_nbr) + message.substr(1);
-                }
-                else
-                {
-                    message = std::to_string(line_nbr) + ": " + message;
-                }
+                message = std::to_string(line_nbr) + ": " + message;
             }
             messages.push_back(message);
         }
-- 
2.43.0


From 707be644bbc93599b1c81306953a4867a73904bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:30 +0000
Subject: [PATCH 07/36] fix: publish a diagnostic for every failing line

---
 nclangsrv/JsonMessageHandler.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nclangsrv/JsonMessageHandler.cpp b/nclangsrv/JsonMessageHandler.cpp
index 6b66860..df5092b 100644
--- a/nclangsrv/JsonMessageHandler.cpp
+++ b/nclangsrv/JsonMessageHandler.cpp
@@ -1105,13 +1105,16 @@ void JsonMessageHandler::textDocument_publishDiagnostics(const std::string& uri,
                         character--;
                     result_message = tokens[2];
                 }
-                else
+                else if (tokens.size() > 1)
                 {
                     result_message = tokens[1];
                 }
             }
 
-            if (line != 0 or character != 0 or not result_message.empty())
+            if (result_message.empty())
+                result_message = error_message;
+
+            if (not error_message.empty())
             {
                 rapidjson::Value diagnostic(rapidjson::kObjectType);
                 {
-- 
2.43.0


From 138017956a69f9e0504a8a2fba3248ca2a9fb0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:08 +0000
Subject: [PATCH 08/36] fix: start a path calculator built from moved settings
 from those settings

---
 parser/fanuc/AttributesPathCalculator.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index 75460ec..bc04dc9 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -403,14 +403,14 @@ AttributesPathCalculator::AttributesPathCalculator(EMachineTool machine_tool, EM
     , cnc_default_values(std::move(cnc_default_values))
     , language(language)
     , active_s(this->cnc_default_values.operator_turns_on_rotation ? this->cnc_default_values.default_rotation : -1)
-    , active_g(static_cast<int>(cnc_default_values.default_motion))
+    , active_g(static_cast<int>(this->cnc_default_values.default_motion))
     , active_g171819(this->cnc_default_values.default_work_plane)
     , active_g_return(this->cnc_default_values.drill_cycle_return_value)
     , active_g9091(this->cnc_default_values.default_programming)
     , active_feed_mode(this->cnc_default_values.default_feed_mode)
 {
-    copy_on_return cr{active_g, active_g9091, machine_points_data.machine_base_point, prev_values, word_range};
-    for (const auto& it : kinematics.cartesian_system_axis)
+    copy_on_return cr{active_g, active_g9091, this->machine_points_data.machine_base_point, prev_values, word_range};
+    for (const auto& it : this->kinematics.cartesian_system_axis)
         gcode_params.insert(it.first);
 }
 
-- 
2.43.0


From b75a1cbed782251222946a3c2f92b6c483556c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:16 +0000
Subject: [PATCH 09/36] fix: reset also forgets a pending rapid traverse after
 a tool exchange

---
 parser/fanuc/AttributesPathCalculator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index bc04dc9..e4c5ff7 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -454,6 +454,7 @@ void AttributesPathCalculator::reset()
     active_feed_mode = cnc_default_values.default_feed_mode;
     active_helix     = EHelixType::None;
     active_t.clear();
+    active_auto_rapid_traverse_after_tool_exchange = false;
     copy_on_return cr{active_g, active_g9091, machine_points_data.machine_base_point, prev_values, word_range};
 }
 
-- 
2.43.0


From 7b729438547590a5f7ee9da437ea13ed008b9d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:28 +0000
Subject: [PATCH 10/36] fix: rotating a line leaves a macro reference after G
 alone

---
 parser/fanuc/AxesRotator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/fanuc/AxesRotator.cpp b/parser/fanuc/AxesRotator.cpp
index a11b8f0..6445649 100644
--- a/parser/fanuc/AxesRotator.cpp
+++ b/parser/fanuc/AxesRotator.cpp
@@ -191,7 +191,7 @@ public:
         }
         else if (data.word == "G")
         {
-            if (!data.value)
+            if (!data.value || data.macro || data.open_bracket) // a macro number is not a G code
                 return;
 
             auto& val = *data.value;
-- 
2.43.0


From 5317bbb9a634203e433b581b4d4ed0b1f32d6aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:36 +0000
Subject: [PATCH 11/36] fix: rotating recognises arc and plane codes written
 with leading zeros

---
 parser/fanuc/AxesRotator.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/parser/fanuc/AxesRotator.cpp b/parser/fanuc/AxesRotator.cpp
index 6445649..dc728ed 100644
--- a/parser/fanuc/AxesRotator.cpp
+++ b/parser/fanuc/AxesRotator.cpp
@@ -2,6 +2,7 @@
 
 #include "AxesRotator.h"
 
+#include <algorithm>
 #include <string>
 #include <unordered_map>
 
@@ -194,15 +195,17 @@ public:
             if (!data.value || data.macro || data.open_bracket) // a macro number is not a G code
                 return;
 
-            auto& val = *data.value;
-            if (!(val == "17" || val == "18" || val == "19" || val == "2" || val == "3"))
+            auto&      val  = *data.value;
+            const auto code = val.substr(std::min(val.find_first_not_of('0'), val.size())); // G02 is G2
+            if (!(code == "17" || code == "18" || code == "19" || code == "2" || code == "3"))
                 return;
 
-            const auto wt_item = wtm.find({data.word, val});
+            const auto wt_item = wtm.find({data.word, code});
             if (wt_item == std::end(wtm))
                 return;
 
-            val = std::to_string(wt_item->second.value);
+            if (const auto rotated = std::to_string(wt_item->second.value); rotated != code)
+                val = rotated;
         }
     }
 
-- 
2.43.0


From b68ba7b5bfa1c901c274c73f0236e2d467abe88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:50 +0000
Subject: [PATCH 12/36] fix: unit conversion keeps trailing zeros of values
 without decimals

---
 parser/fanuc/UnitConverter.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/parser/fanuc/UnitConverter.cpp b/parser/fanuc/UnitConverter.cpp
index d9a07a7..dcacd92 100644
--- a/parser/fanuc/UnitConverter.cpp
+++ b/parser/fanuc/UnitConverter.cpp
@@ -128,8 +128,11 @@ public:
         ostr << std::fixed << std::setprecision(precision) << dvalue;
 
         std::string ret_str(ostr.str());
-        boost::algorithm::trim_right_if(ret_str, boost::is_any_of("0"));
-        boost::algorithm::trim_right_if(ret_str, boost::is_any_of("."));
+        if (precision > 0)
+        {
+            boost::algorithm::trim_right_if(ret_str, boost::is_any_of("0"));
+            boost::algorithm::trim_right_if(ret_str, boost::is_any_of("."));
+        }
 
         const auto pos = ret_str.find('.');
         if (pos != std::string::npos)
-- 
2.43.0


From 0ad4ad1dd7b1be67718cf97af12a29948c31df5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:49 +0000
Subject: [PATCH 13/36] fix: splitting a program numbers its lines
 consecutively

---
 parser/fanuc/AllAttributesParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/fanuc/AllAttributesParser.cpp b/parser/fanuc/AllAttributesParser.cpp
index a16b874..c20a966 100644
--- a/parser/fanuc/AllAttributesParser.cpp
+++ b/parser/fanuc/AllAttributesParser.cpp
@@ -525,7 +525,7 @@ bool AllAttributesParser::split_file(std::vector<std::string>&&
                 fs.evaluate(attr_path_calc->get_cnc_default_values(), std::move(vtmp), retraction_plane, value,
                             vec_time_result);
 
-            RenumberSettings rs{"N", 1, 0, 0, false, false};
+            RenumberSettings rs{"N", 1, 1, 99999, false, false};
             for (auto& x : value)
                 for (auto& y : x)
                     renumberer.renumber(y, rs);
@@ -552,7 +552,7 @@ bool AllAttributesParser::split_file(std::vector<std::string>&&
 
             fs.evaluate(attr_path_calc->get_cnc_default_values(), std::move(vtmp), retraction_plane, value);
 
-            RenumberSettings rs{"N", 1, 0, 0, false, false};
+            RenumberSettings rs{"N", 1, 1, 99999, false, false};
             for (auto& x : value)
                 for (auto& y : x)
                     renumberer.renumber(y, rs);
-- 
2.43.0


From 4147df46569a8f11cc26217b0476ded594a5220a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:03 +0000
Subject: [PATCH 14/36] fix: machine points keep their values relative to the
 zero point

---
 parser/fanuc/AllAttributesParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/fanuc/AllAttributesParser.cpp b/parser/fanuc/AllAttributesParser.cpp
index c20a966..21ff898 100644
--- a/parser/fanuc/AllAttributesParser.cpp
+++ b/parser/fanuc/AllAttributesParser.cpp
@@ -145,13 +145,13 @@ void AllAttributesParser::set_ncsettings(EMachineTool machine_tool, EMachineTool
     for (const auto& it : machine_points_data.tool_exchange_point)
     {
         machine_points_data_zero_point.tool_exchange_point[it.first] =
-            it.second - zero_point_axis_map.count(it.first) ? zero_point_axis_map.at(it.first) : 0;
+            it.second - (zero_point_axis_map.count(it.first) ? zero_point_axis_map.at(it.first) : 0);
     }
 
     for (const auto& it : machine_points_data.machine_base_point)
     {
         machine_points_data_zero_point.machine_base_point[it.first] =
-            it.second - zero_point_axis_map.count(it.first) ? zero_point_axis_map.at(it.first) : 0;
+            it.second - (zero_point_axis_map.count(it.first) ? zero_point_axis_map.at(it.first) : 0);
     }
 
     attr_path_calc =
-- 
2.43.0


From a4dc7b569a7d29fd982e8485d33e2395231425f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:18 +0000
Subject: [PATCH 15/36] fix: unit conversion takes only G4 for a dwell, not a
 macro reference after G

---
 parser/fanuc/UnitConverter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/fanuc/UnitConverter.cpp b/parser/fanuc/UnitConverter.cpp
index dcacd92..2a1597d 100644
--- a/parser/fanuc/UnitConverter.cpp
+++ b/parser/fanuc/UnitConverter.cpp
@@ -43,7 +43,7 @@ public:
         }
         was_first_item = true;
 
-        if (data.word == "G" && data.value && std::stoi(*data.value) == 4)
+        if (data.word == "G" && !data.macro && data.value && std::stoi(*data.value) == 4)
         {
             ignore_rest = true;
             return;
-- 
2.43.0


From c8b56071c9741d6ad9456ba4b5c46181a55d535e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:27 +0000
Subject: [PATCH 16/36] fix: a line's syntax check no longer depends on macros
 and brackets of earlier lines

---
 parser/fanuc/AllAttributesParser.cpp      | 1 +
 parser/fanuc/AllAttributesParserGrammar.h | 1 +
 2 files changed, 2 insertions(+)

diff --git a/parser/fanuc/AllAttributesParser.cpp b/parser/fanuc/AllAttributesParser.cpp
index 21ff898..f2f9579 100644
--- a/parser/fanuc/AllAttributesParser.cpp
+++ b/parser/fanuc/AllAttributesParser.cpp
@@ -238,6 +238,7 @@ bool AllAttributesParser::parse(int line, std::string_view data, std::vector<Att
             position_begin2         = pos_iterator_type(evaluated_code_view.cbegin());
             pos_iterator_type iter2 = position_begin2, position_end2(evaluated_code_view.cend());
             evaluated_code_part     = true;
+            all_attr_grammar->clear_message();
             ret                     = qi::phrase_parse(iter2, position_end2, *all_attr_grammar, qi::blank, value2);
             evaluated_code_part     = false;
 
diff --git a/parser/fanuc/AllAttributesParserGrammar.h b/parser/fanuc/AllAttributesParserGrammar.h
index abbfaac..2260fac 100644
--- a/parser/fanuc/AllAttributesParserGrammar.h
+++ b/parser/fanuc/AllAttributesParserGrammar.h
@@ -476,6 +476,7 @@ public:
     void clear_message()
     {
         message.clear();
+        st = {};
     }
 
 private:
-- 
2.43.0


From 759c439158aba8052c1b48f327608028d13ad6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:55 +0000
Subject: [PATCH 17/36] fix: a macro that cannot be evaluated is reported with
 the evaluator's message

---
 parser/fanuc/AllAttributesParser.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/parser/fanuc/AllAttributesParser.cpp b/parser/fanuc/AllAttributesParser.cpp
index f2f9579..a19fdae 100644
--- a/parser/fanuc/AllAttributesParser.cpp
+++ b/parser/fanuc/AllAttributesParser.cpp
@@ -222,10 +222,7 @@ bool AllAttributesParser::parse(int line, std::string_view data, std::vector<Att
         }
 
         if (!MacroEvaluator::evaluate(macro_values, line, value, message, single_line_msg, other_settings.language))
-        {
-            message = all_attr_grammar->get_message();
             return false;
-        }
 
         std::vector<AttributeVariant> value2;
 
-- 
2.43.0


From b327ef3457e258595a6d7f2611a3031f813a38ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:29 +0000
Subject: [PATCH 18/36] fix: a line rejected by the syntax check at its first
 word, or after macro substitution, is reported with its message

---
 parser/fanuc/AllAttributesParser.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/parser/fanuc/AllAttributesParser.cpp b/parser/fanuc/AllAttributesParser.cpp
index a19fdae..ac93bd1 100644
--- a/parser/fanuc/AllAttributesParser.cpp
+++ b/parser/fanuc/AllAttributesParser.cpp
@@ -212,6 +212,11 @@ bool AllAttributesParser::parse(int line, std::string_view data, std::vector<Att
     {
         all_attr_grammar->clear_message();
         ret = qi::phrase_parse(iter, position_end, *all_attr_grammar, qi::blank, value);
+        if (!ret)
+        {
+            message = all_attr_grammar->get_message();
+            return false;
+        }
 
         UniqueCode()(*active_word_grammar, value, other_settings.language);
 
@@ -238,6 +243,11 @@ bool AllAttributesParser::parse(int line, std::string_view data, std::vector<Att
             all_attr_grammar->clear_message();
             ret                     = qi::phrase_parse(iter2, position_end2, *all_attr_grammar, qi::blank, value2);
             evaluated_code_part     = false;
+            if (!ret)
+            {
+                message = all_attr_grammar->get_message();
+                return false;
+            }
 
             GrammarSelector()(word_grammar, active_word_grammar, value2);
         }
@@ -277,6 +287,7 @@ bool AllAttributesParser::parse(int line, std::string_view data, std::vector<Att
         size_t line   = get_line(e.first);
         size_t column = get_column(evaluated_code_part ? position_begin2 : position_begin, e.first);
         message       = all_attr_grammar->get_message();
+        ret           = false;
 
         std::stringstream msg;
         msg << line << ":" << column << ": " << std::string(e.first, e.last);
-- 
2.43.0


From ac9d97f673e12301ad1b44d44657810890431691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:24 +0000
Subject: [PATCH 19/36] fix: after G20 or G21 the word limits of the newly
 selected unit apply

---
 parser/fanuc/AllAttributesParser.cpp | 22 ++++++++++++++++++----
 parser/fanuc/AllAttributesParser.h   |  2 ++
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/parser/fanuc/AllAttributesParser.cpp b/parser/fanuc/AllAttributesParser.cpp
index ac93bd1..7d7326f 100644
--- a/parser/fanuc/AllAttributesParser.cpp
+++ b/parser/fanuc/AllAttributesParser.cpp
@@ -65,8 +65,7 @@ AllAttributesParser::AllAttributesParser(FanucWordGrammar&& grammar, std::vector
 
     if (instantiateWithoutNCSettings)
     {
-        all_attr_grammar = std::make_unique<all_attributes_grammar<pos_iterator_type>>(
-            *active_word_grammar, char_sym, decimal_sym, assignable_sym, other_settings.language);
+        build_grammar();
     }
 }
 
@@ -158,10 +157,25 @@ void AllAttributesParser::set_ncsettings(EMachineTool machine_tool, EMachineTool
         std::make_unique<AttributesPathCalculator>(machine_tool, machine_tool_type, machine_points_data_zero_point,
                                                    kinematics, cnc_default_values, other_settings.language);
 
+    build_grammar();
+}
+
+void AllAttributesParser::build_grammar()
+{
     all_attr_grammar = std::make_unique<all_attributes_grammar<pos_iterator_type>>(
         *active_word_grammar, char_sym, decimal_sym, assignable_sym, other_settings.language);
 }
 
+void AllAttributesParser::select_grammar(const std::vector<AttributeVariant>& value)
+{
+    const auto* previous_word_grammar = active_word_grammar;
+    GrammarSelector()(word_grammar, active_word_grammar, value);
+
+    // the grammar checks the values against the word grammar it was built for
+    if (active_word_grammar != previous_word_grammar)
+        build_grammar();
+}
+
 void AllAttributesParser::build_symbols()
 {
     assignable_sym.clear();
@@ -249,7 +263,7 @@ bool AllAttributesParser::parse(int line, std::string_view data, std::vector<Att
                 return false;
             }
 
-            GrammarSelector()(word_grammar, active_word_grammar, value2);
+            select_grammar(value2);
         }
 
         SystemMacroAssigner()(macro_values, line, evaluated_code.empty() ? value : value2);
@@ -280,7 +294,7 @@ bool AllAttributesParser::parse(int line, std::string_view data, std::vector<Att
                                 other_settings.language);
         }
 
-        GrammarSelector()(word_grammar, active_word_grammar, evaluated_code.empty() ? value : value2);
+        select_grammar(evaluated_code.empty() ? value : value2);
     }
     catch (const qi::expectation_failure<pos_iterator_type>& e)
     {
diff --git a/parser/fanuc/AllAttributesParser.h b/parser/fanuc/AllAttributesParser.h
index 49ac6c7..466f005 100644
--- a/parser/fanuc/AllAttributesParser.h
+++ b/parser/fanuc/AllAttributesParser.h
@@ -115,6 +115,8 @@ private:
                                std::string& message, bool single_line_msg);
 
     void build_symbols();
+    void build_grammar();
+    void select_grammar(const std::vector<AttributeVariant>& value);
 
     bool simple_parse(int line, std::string_view data, std::vector<AttributeVariant>& value, std::string& message,
                       bool single_line_msg);
-- 
2.43.0


From c4b1be8d954908448d66d728b33b338cec3ce25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:46 +0000
Subject: [PATCH 20/36] fix: a diagnostic shows its whole message, also when
 that contains colons

---
 nclangsrv/JsonMessageHandler.cpp | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/nclangsrv/JsonMessageHandler.cpp b/nclangsrv/JsonMessageHandler.cpp
index df5092b..6c25559 100644
--- a/nclangsrv/JsonMessageHandler.cpp
+++ b/nclangsrv/JsonMessageHandler.cpp
@@ -1082,15 +1082,29 @@ void JsonMessageHandler::textDocument_publishDiagnostics(const std::string& uri,
             int32_t     character{};
             std::string result_message = error_message;
 
-            std::string              data;
+            // <line>: <message> or <line>:<column>: <message>, and the message may contain colons as well
             std::vector<std::string> tokens;
-            std::stringstream        ss(error_message);
-            while (std::getline(ss, data, ':'))
+            const auto               line_end = error_message.find_first_not_of("0123456789");
+            if (line_end != std::string::npos && line_end > 0 && error_message[line_end] == ':')
             {
-                boost::algorithm::trim(data);
-                tokens.push_back(data);
+                const auto column_end = error_message.find_first_not_of("0123456789", line_end + 1);
+                tokens.push_back(error_message.substr(0, line_end));
+                if (column_end != std::string::npos && column_end > line_end + 1 && error_message[column_end] == ':')
+                {
+                    tokens.push_back(error_message.substr(line_end + 1, column_end - line_end - 1));
+                    tokens.push_back(error_message.substr(column_end + 1));
+                }
+                else
+                {
+                    tokens.push_back(error_message.substr(line_end + 1));
+                }
+            }
+
+            for (auto& token : tokens)
+            {
+                boost::algorithm::trim(token);
                 if (mLogger)
-                    LOGGER << "JsonMessageHandler::" << __func__ << ": [" << data << "]" << std::endl;
+                    LOGGER << "JsonMessageHandler::" << __func__ << ": [" << token << "]" << std::endl;
             }
 
             if (not tokens.empty())
-- 
2.43.0


From d7eb4ce8335f1ffdf69b443e3af2cb1a1bd2ae07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:57 +0000
Subject: [PATCH 21/36] fix: a word without digits is reported, not thrown out
 of the line check or the unit conversion

---
 parser/fanuc/AllAttributesParser.cpp | 34 +++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/parser/fanuc/AllAttributesParser.cpp b/parser/fanuc/AllAttributesParser.cpp
index 7d7326f..2b2c04d 100644
--- a/parser/fanuc/AllAttributesParser.cpp
+++ b/parser/fanuc/AllAttributesParser.cpp
@@ -344,6 +344,11 @@ bool AllAttributesParser::parse(int line, std::string_view data, std::vector<Att
         message = e.what();
         return false;
     }
+    catch (const std::invalid_argument& e)
+    {
+        message = e.what();
+        return false;
+    }
     catch (const std::out_of_range& e)
     {
         message = e.what();
@@ -416,15 +421,28 @@ bool AllAttributesParser::convert_length(int line, std::string_view data, std::v
     if (!simple_parse(line, data, value, message, single_line_msg))
         return false;
 
-    switch (conversion_type)
+    try
     {
-    case UnitConversionType::metric_to_imperial:
-        unit_converter.mm_to_inch(value);
-        break;
-    case UnitConversionType::imperial_to_metric:
-        unit_converter.inch_to_mm(value);
-        break;
-    default:
+        switch (conversion_type)
+        {
+        case UnitConversionType::metric_to_imperial:
+            unit_converter.mm_to_inch(value);
+            break;
+        case UnitConversionType::imperial_to_metric:
+            unit_converter.inch_to_mm(value);
+            break;
+        default:
+            return false;
+        }
+    }
+    catch (const std::invalid_argument& e)
+    {
+        message = e.what();
+        return false;
+    }
+    catch (const std::out_of_range& e)
+    {
+        message = e.what();
         return false;
     }
 
-- 
2.43.0


From b4392dd6dee4704c294853f9d7b9043694b41a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:18 +0000
Subject: [PATCH 22/36] fix: a split that is not possible is reported, not
 thrown out of the file splitting

---
 parser/fanuc/AllAttributesParser.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/parser/fanuc/AllAttributesParser.cpp b/parser/fanuc/AllAttributesParser.cpp
index 2b2c04d..17eca1c 100644
--- a/parser/fanuc/AllAttributesParser.cpp
+++ b/parser/fanuc/AllAttributesParser.cpp
@@ -599,6 +599,16 @@ bool AllAttributesParser::split_file(std::vector<std::string>&&
                     renumberer.renumber(y, rs);
         }
     }
+    catch (const file_splitter_exception& e)
+    {
+        message = e.what();
+        return false;
+    }
+    catch (const std::invalid_argument& e)
+    {
+        message = e.what();
+        return false;
+    }
     catch (const std::out_of_range& e)
     {
         message = e.what();
-- 
2.43.0


From e2b9bf64c01659913cd69b30de564f6461d25613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:55 +0000
Subject: [PATCH 23/36] fix: the position kept after a tool exchange move does
 not read a value that is gone

---
 parser/fanuc/AttributesPathCalculator.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index e4c5ff7..b304bfc 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -312,7 +312,7 @@ auto get_ignore_g_codes()
 
 struct copy_on_return
 {
-    copy_on_return(const int& active_g, const EProgrammingType& active_g9091,
+    copy_on_return(int active_g, EProgrammingType active_g9091,
                    const std::map<std::string, double>& values, std::map<std::string, double>& prev_values,
                    word_range_map& word_range, const std::vector<std::string>* other_g = nullptr)
         : v(values)
@@ -389,8 +389,8 @@ private:
     std::map<std::string, double>&       pv;
     word_range_map&                      wr;
     const std::vector<std::string>*      og;
-    const int&                           g;
-    const EProgrammingType&              g9091;
+    const int                            g;
+    const EProgrammingType               g9091; // held by value: callers may pass a temporary
 };
 
 AttributesPathCalculator::AttributesPathCalculator(EMachineTool machine_tool, EMachineToolType machine_tool_type,
-- 
2.43.0


From 504322a2ba42fe9a0c6b540effcd2960c4e1c35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:32 +0000
Subject: [PATCH 24/36] fix: drilling in the XZ and YZ planes keeps positions
 like in the XY plane

---
 parser/fanuc/AttributesPathCalculator.cpp | 38 ++++++++++++++---------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index b304bfc..9d1aced 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -312,7 +312,7 @@ auto get_ignore_g_codes()
 
 struct copy_on_return
 {
-    copy_on_return(int active_g, EProgrammingType active_g9091,
+    copy_on_return(int active_g, EWorkPlane active_g171819, EProgrammingType active_g9091,
                    const std::map<std::string, double>& values, std::map<std::string, double>& prev_values,
                    word_range_map& word_range, const std::vector<std::string>* other_g = nullptr)
         : v(values)
@@ -320,15 +320,18 @@ struct copy_on_return
         , wr(word_range)
         , og(other_g)
         , g(active_g)
+        , g171819(active_g171819)
         , g9091(active_g9091)
     {
     }
 
     ~copy_on_return()
     {
+        // in a drill cycle the axis perpendicular to the work plane carries the depth, not a position
+        const char* const depth_axis = g171819 == EWorkPlane::XY ? "Z" : g171819 == EWorkPlane::XZ ? "Y" : "X";
         for (const auto& it : v)
         {
-            if (it.first == "Z" && (is_drill_cycle(g) || is_drill_cycle_qparam(g)))
+            if (it.first == depth_axis && (is_drill_cycle(g) || is_drill_cycle_qparam(g)))
                 continue;
             if (it.first == "Q" || it.first == "L")
                 continue;
@@ -390,6 +393,7 @@ private:
     word_range_map&                      wr;
     const std::vector<std::string>*      og;
     const int                            g;
+    const EWorkPlane                     g171819;
     const EProgrammingType               g9091; // held by value: callers may pass a temporary
 };
 
@@ -409,7 +413,9 @@ AttributesPathCalculator::AttributesPathCalculator(EMachineTool machine_tool, EM
     , active_g9091(this->cnc_default_values.default_programming)
     , active_feed_mode(this->cnc_default_values.default_feed_mode)
 {
-    copy_on_return cr{active_g, active_g9091, this->machine_points_data.machine_base_point, prev_values, word_range};
+    copy_on_return cr{
+        active_g,    active_g171819, active_g9091, this->machine_points_data.machine_base_point,
+        prev_values, word_range};
     for (const auto& it : this->kinematics.cartesian_system_axis)
         gcode_params.insert(it.first);
 }
@@ -431,7 +437,9 @@ AttributesPathCalculator::AttributesPathCalculator(EMachineTool machine_tool, EM
     , active_g9091(this->cnc_default_values.default_programming)
     , active_feed_mode(this->cnc_default_values.default_feed_mode)
 {
-    copy_on_return cr{active_g, active_g9091, machine_points_data.machine_base_point, prev_values, word_range};
+    copy_on_return cr{
+        active_g,    active_g171819, active_g9091, machine_points_data.machine_base_point,
+        prev_values, word_range};
     for (const auto& it : kinematics.cartesian_system_axis)
         gcode_params.insert(it.first);
 }
@@ -455,7 +463,9 @@ void AttributesPathCalculator::reset()
     active_helix     = EHelixType::None;
     active_t.clear();
     active_auto_rapid_traverse_after_tool_exchange = false;
-    copy_on_return cr{active_g, active_g9091, machine_points_data.machine_base_point, prev_values, word_range};
+    copy_on_return cr{
+        active_g,    active_g171819, active_g9091, machine_points_data.machine_base_point,
+        prev_values, word_range};
 }
 
 template <typename T, typename U>
@@ -568,8 +578,8 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
             }
 
             copy_on_return cr{
-                active_g,   active_g9091, values, prev_values,
-                word_range, &other_g}; // save axis in case the start values are provided together with tool change
+                active_g,    active_g171819, active_g9091, values,
+                prev_values, word_range,     &other_g}; // save axis in case the start values are provided together with tool change
             return;
         }
     }
@@ -610,8 +620,8 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
             if (g_return)
                 active_g_return = *g_return;
             copy_on_return cr{
-                active_g,   active_g9091, values, prev_values,
-                word_range, &other_g}; // save axis because here may be start values before any G code is being used
+                active_g,    active_g171819, active_g9091, values,
+                prev_values, word_range,     &other_g}; // save axis because here may be start values before any G code is being used
             return;
         }
 
@@ -1345,14 +1355,14 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
 
     if (move_to_tool_exchange_point)
         copy_on_return cr{
-            active_g, EProgrammingType::Absolute, machine_points_data.tool_exchange_point, prev_values, word_range,
-            &other_g};
+            active_g,    active_g171819, EProgrammingType::Absolute, machine_points_data.tool_exchange_point,
+            prev_values, word_range,     &other_g};
     else if (move_to_machine_base_point)
         copy_on_return cr{
-            active_g, EProgrammingType::Absolute, machine_points_data.machine_base_point, prev_values, word_range,
-            &other_g};
+            active_g,    active_g171819, EProgrammingType::Absolute, machine_points_data.machine_base_point,
+            prev_values, word_range,     &other_g};
     else
-        copy_on_return cr{active_g, active_g9091, values, prev_values, word_range, &other_g};
+        copy_on_return cr{active_g, active_g171819, active_g9091, values, prev_values, word_range, &other_g};
 }
 
 } // namespace fanuc
-- 
2.43.0


From ef256ecc4929b8fd2d2b9f78821b67297f35f00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:17 +0000
Subject: [PATCH 25/36] fix: a macro reference without a number is reported
 where the grammar has no range for its word

---
 parser/fanuc/MacroEvaluatedCodeVerifier.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser/fanuc/MacroEvaluatedCodeVerifier.cpp b/parser/fanuc/MacroEvaluatedCodeVerifier.cpp
index fac2654..f6ca98f 100644
--- a/parser/fanuc/MacroEvaluatedCodeVerifier.cpp
+++ b/parser/fanuc/MacroEvaluatedCodeVerifier.cpp
@@ -46,6 +46,8 @@ public:
             text += *data.open_bracket;
         if (was_interesting_word && data.macro)
         {
+            if (!data.value)
+                throw macro_evaluated_code_exception(make_message(MessageName::ValueMissingForHash, language));
             unsigned int val        = std::stoi(*data.value);
             auto         macro_itor = macro_values.lower_bound({val, line});
             if (macro_itor == std::end(macro_values) ||
-- 
2.43.0


From 6df26ad4079eaca478a45890a8f9ac956fca0b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:22 +0000
Subject: [PATCH 26/36] fix: a drilling cycle with a missing Q is reported
 instead of reading past the words

---
 parser/fanuc/AttributesPathCalculator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index 9d1aced..bad0fae 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -1207,7 +1207,7 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
             if (dcq)
             {
                 const auto qit = values.find("Q");
-                if (rit == std::end(values))
+                if (qit == std::end(values))
                     throw path_calc_exception(make_message(MessageName::MissingValue, language, "Q"));
                 if (current_g9091 == EProgrammingType::Incremental)
                 {
-- 
2.43.0


From 916bc5801d75ab8eefd5c14973e816f2a575b259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:40 +0000
Subject: [PATCH 27/36] fix: a helix line without a word for the axis of the
 helix does not read a value that is not there

---
 parser/fanuc/AttributesPathCalculator.cpp | 25 ++++++++++++-----------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index bad0fae..c40b4a3 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -982,21 +982,22 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
 
             if (current_g9091 == EProgrammingType::Incremental)
             {
+                const auto z_incr = z ? *z : 0.;
                 if (active_helix == EHelixType::Full)
                 {
                     if ((!x || *x == 0.) && (!y || *y == 0.))
                     {
                         if (i && j)
-                            path_result.work_motion = gfunc_helix_incr(*z, *i, *j);
+                            path_result.work_motion = gfunc_helix_incr(z_incr, *i, *j);
                         else
-                            path_result.work_motion = gfunc_helix_r_incr(*z, *r);
+                            path_result.work_motion = gfunc_helix_r_incr(z_incr, *r);
                     }
                     else
                     {
                         if (i && j)
-                            path_result.work_motion = PathCalculator::G2G3_HelixLast(gfunc_helix_incr(*z, *i, *j));
+                            path_result.work_motion = PathCalculator::G2G3_HelixLast(gfunc_helix_incr(z_incr, *i, *j));
                         else
-                            path_result.work_motion = PathCalculator::G2G3_HelixLast(gfunc_helix_r_incr(*z, *r));
+                            path_result.work_motion = PathCalculator::G2G3_HelixLast(gfunc_helix_r_incr(z_incr, *r));
                         active_helix = EHelixType::None;
                     }
                 }
@@ -1006,9 +1007,9 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
                     {
                         first_helix_quarter_incr_block = false;
                         if (i && j)
-                            path_result.work_motion = gfunc_helix_quarter_incr(*z, *i, *j);
+                            path_result.work_motion = gfunc_helix_quarter_incr(z_incr, *i, *j);
                         else
-                            path_result.work_motion = gfunc_helix_quarter_r_incr(*z, *r);
+                            path_result.work_motion = gfunc_helix_quarter_r_incr(z_incr, *r);
                     }
                     else
                     {
@@ -1027,16 +1028,16 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
                     if (*x_prev == x_curr && *y_prev == y_curr)
                     {
                         if (i && j)
-                            path_result.work_motion = gfunc_helix(*z_prev, *z, *i, *j);
+                            path_result.work_motion = gfunc_helix(*z_prev, z_curr, *i, *j);
                         else
-                            path_result.work_motion = gfunc_helix_r(*z_prev, *z, *r);
+                            path_result.work_motion = gfunc_helix_r(*z_prev, z_curr, *r);
                     }
                     else
                     {
                         if (i && j)
-                            path_result.work_motion = PathCalculator::G2G3_HelixLast(gfunc_helix(*z_prev, *z, *i, *j));
+                            path_result.work_motion = PathCalculator::G2G3_HelixLast(gfunc_helix(*z_prev, z_curr, *i, *j));
                         else
-                            path_result.work_motion = PathCalculator::G2G3_HelixLast(gfunc_helix_r(*z_prev, *z, *r));
+                            path_result.work_motion = PathCalculator::G2G3_HelixLast(gfunc_helix_r(*z_prev, z_curr, *r));
                         active_helix = EHelixType::None;
                     }
                 }
@@ -1045,9 +1046,9 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
                     if (*x_prev != x_curr && *y_prev != y_curr && *z_prev != z_curr)
                     {
                         if (i && j)
-                            path_result.work_motion = gfunc_helix_quarter(*z_prev, *z, *i, *j);
+                            path_result.work_motion = gfunc_helix_quarter(*z_prev, z_curr, *i, *j);
                         else
-                            path_result.work_motion = gfunc_helix_quarter_r(*z_prev, *z, *r);
+                            path_result.work_motion = gfunc_helix_quarter_r(*z_prev, z_curr, *r);
                     }
                     else
                     {
-- 
2.43.0


From 40979cafa89641f2c6c7d129e3139c6b9bc3c69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:48 +0000
Subject: [PATCH 28/36] fix: a tool exchange with G28 on its line does not read
 an exchange point axis that is not set

---
 parser/fanuc/AttributesPathCalculator.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/parser/fanuc/AttributesPathCalculator.cpp b/parser/fanuc/AttributesPathCalculator.cpp
index c40b4a3..508d621 100644
--- a/parser/fanuc/AttributesPathCalculator.cpp
+++ b/parser/fanuc/AttributesPathCalculator.cpp
@@ -697,19 +697,22 @@ void AttributesPathCalculator::evaluate(const std::vector<AttributeVariant>& val
             const auto x_curr =
                 ((!move_to_tool_exchange_point && !move_to_machine_base_point && xit != std::cend(values)) ||
                  (move_to_tool_exchange_point && xit != std::cend(machine_points_data.tool_exchange_point)) ||
-                 (move_to_machine_base_point && xit != std::cend(machine_points_data.machine_base_point)))
+                 (!move_to_tool_exchange_point && move_to_machine_base_point &&
+                  xit != std::cend(machine_points_data.machine_base_point)))
                     ? xit->second
                     : xit_prev->second;
             const auto y_curr =
                 ((!move_to_tool_exchange_point && !move_to_machine_base_point && yit != std::cend(values)) ||
                  (move_to_tool_exchange_point && yit != std::cend(machine_points_data.tool_exchange_point)) ||
-                 (move_to_machine_base_point && yit != std::cend(machine_points_data.machine_base_point)))
+                 (!move_to_tool_exchange_point && move_to_machine_base_point &&
+                  yit != std::cend(machine_points_data.machine_base_point)))
                     ? yit->second
                     : yit_prev->second;
             const auto z_curr =
                 ((!move_to_tool_exchange_point && !move_to_machine_base_point && zit != std::cend(values)) ||
                  (move_to_tool_exchange_point && zit != std::cend(machine_points_data.tool_exchange_point)) ||
-                 (move_to_machine_base_point && zit != std::cend(machine_points_data.machine_base_point)))
+                 (!move_to_tool_exchange_point && move_to_machine_base_point &&
+                  zit != std::cend(machine_points_data.machine_base_point)))
                     ? zit->second
                     : zit_prev->second;
 
-- 
2.43.0


From 33eaad2024c66bf6a3ee0c88a48ad19867bcc1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:58 +0000
Subject: [PATCH 29/36] fix: SINH is evaluated, like the other functions
 expressions accept

---
 parser/fanuc/ValueCalculator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser/fanuc/ValueCalculator.cpp b/parser/fanuc/ValueCalculator.cpp
index a1e74e6..cdc1290 100644
--- a/parser/fanuc/ValueCalculator.cpp
+++ b/parser/fanuc/ValueCalculator.cpp
@@ -302,6 +302,8 @@ public:
             return std::log(rhs);
         else if (x.name == "sin")
             return std::sin(rhs * M_PI / 180);
+        else if (x.name == "sinh")
+            return std::sinh(rhs * M_PI / 180);
         else if (x.name == "sqrt")
             return std::sqrt(rhs);
         else if (x.name == "tan")
-- 
2.43.0


From 2813218e0fb6c5f57c962fdb9dc273f1f3bbd8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:58 +0000
Subject: [PATCH 30/36] fix: ASIN, ACOS and ATAN give degrees, as SIN, COS and
 TAN take them

---
 parser/fanuc/ValueCalculator.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser/fanuc/ValueCalculator.cpp b/parser/fanuc/ValueCalculator.cpp
index cdc1290..61d3ae0 100644
--- a/parser/fanuc/ValueCalculator.cpp
+++ b/parser/fanuc/ValueCalculator.cpp
@@ -281,11 +281,11 @@ public:
         if (x.name == "abs")
             return std::abs(rhs);
         else if (x.name == "acos")
-            return std::acos(rhs * M_PI / 180);
+            return std::acos(rhs) * 180 / M_PI;
         else if (x.name == "asin")
-            return std::asin(rhs * M_PI / 180);
+            return std::asin(rhs) * 180 / M_PI;
         else if (x.name == "atan")
-            return std::atan(rhs * M_PI / 180);
+            return std::atan(rhs) * 180 / M_PI;
         else if (x.name == "ceil")
             return std::ceil(rhs);
         else if (x.name == "cos")
-- 
2.43.0


From a22b34278b8d824e3c1e01a89d36a60f31fc8e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:58 +0000
Subject: [PATCH 31/36] fix: MOD with a zero divisor is reported instead of
 ending the process

---
 parser/fanuc/ValueCalculator.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/parser/fanuc/ValueCalculator.cpp b/parser/fanuc/ValueCalculator.cpp
index 61d3ae0..f1666bc 100644
--- a/parser/fanuc/ValueCalculator.cpp
+++ b/parser/fanuc/ValueCalculator.cpp
@@ -240,7 +240,13 @@ public:
         else if (x.operator_name == "XOR")
             return static_cast<int>(lhs) ^ static_cast<int>(rhs);
         else if (x.operator_name == "MOD")
-            return static_cast<int>(lhs) % static_cast<int>(rhs);
+        {
+            const auto divisor = std::trunc(rhs);
+            if (divisor == 0)
+                throw eval_exception(
+                    make_message(MessageName::UnsupportedBinaryOperation, language, x.operator_name + " 0"));
+            return std::fmod(std::trunc(lhs), divisor) + 0.;
+        }
 
         // BOOST_ASSERT(0);
         // return 0;
-- 
2.43.0


From 6bfc628f5b3db3a4fe8909c74211b8fc75ff4178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:58 +0000
Subject: [PATCH 32/36] fix: a macro assigned again on the same line gets the
 new value

---
 parser/fanuc/MacroEvaluator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/fanuc/MacroEvaluator.cpp b/parser/fanuc/MacroEvaluator.cpp
index 7b63f16..827a882 100644
--- a/parser/fanuc/MacroEvaluator.cpp
+++ b/parser/fanuc/MacroEvaluator.cpp
@@ -99,8 +99,8 @@ bool MacroEvaluator::evaluate(macro_map& macro_values, int line, const std::vect
         auto vc_ret = value_calculator.parse(macro_text, message, single_line_msg, macro_values, macro_result_value, language);
         if (!vc_ret)
             return false;
-        macro_values.emplace(std::make_pair(macro_map_key{static_cast<decltype(macro_map_key::id)>(macro_id), line},
-                                            macro_result_value));
+        macro_values.insert_or_assign(macro_map_key{static_cast<decltype(macro_map_key::id)>(macro_id), line},
+                                      macro_result_value);
     }
 
     return true;
-- 
2.43.0


From a13c9c4db54aecc5265bcaff64c89ef15261287e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:59 +0000
Subject: [PATCH 33/36] fix: substituting macro values keeps the = and the # of
 the other words of the line

---
 parser/fanuc/MacroEvaluatedCodeVerifier.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/fanuc/MacroEvaluatedCodeVerifier.cpp b/parser/fanuc/MacroEvaluatedCodeVerifier.cpp
index f6ca98f..7f43236 100644
--- a/parser/fanuc/MacroEvaluatedCodeVerifier.cpp
+++ b/parser/fanuc/MacroEvaluatedCodeVerifier.cpp
@@ -40,6 +40,8 @@ public:
         }
 
         text += data.word;
+        if (data.assign)
+            text += *data.assign;
         if (data.sign)
             text += *data.sign;
         if (data.open_bracket)
@@ -59,6 +61,8 @@ public:
         }
         else
         {
+            if (data.macro)
+                text += *data.macro;
             if (data.value)
                 text += *data.value;
             if (data.dot)
-- 
2.43.0


From 18752af0998012dbbdd2d113b7466f3f415a8eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:04 +0000
Subject: [PATCH 34/36] fix: a signed reference to a macro with a negative
 value is not written with two signs

---
 parser/fanuc/MacroEvaluatedCodeVerifier.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/parser/fanuc/MacroEvaluatedCodeVerifier.cpp b/parser/fanuc/MacroEvaluatedCodeVerifier.cpp
index 7f43236..20a0504 100644
--- a/parser/fanuc/MacroEvaluatedCodeVerifier.cpp
+++ b/parser/fanuc/MacroEvaluatedCodeVerifier.cpp
@@ -56,7 +56,15 @@ public:
                 (macro_itor != std::end(macro_values) && macro_itor->first.id != val))
                 throw macro_evaluated_code_exception(
                     make_message(MessageName::MissingValue, language, "#" + *data.value));
-            text += to_string_trunc(macro_itor->second);
+            auto macro_value = macro_itor->second;
+            if (data.sign && !data.open_bracket && macro_value < 0)
+            {
+                // A negative value brings its own sign: X-#1 with -5 is X5, X+#1 is X-5
+                text.pop_back();
+                if (*data.sign == '-')
+                    macro_value = -macro_value;
+            }
+            text += to_string_trunc(macro_value);
             was_modified = true;
         }
         else
-- 
2.43.0


From ea06d2438657f5728989c2875e4c7ca5ea547112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:35 +0000
Subject: [PATCH 35/36] fix: the parts of a split file that have no text are
 handed out as null pointers

---
 parser/fanuc/AllAttributesParserWrapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/fanuc/AllAttributesParserWrapper.cpp b/parser/fanuc/AllAttributesParserWrapper.cpp
index 4313529..a5f4976 100644
--- a/parser/fanuc/AllAttributesParserWrapper.cpp
+++ b/parser/fanuc/AllAttributesParserWrapper.cpp
@@ -457,7 +457,7 @@ bool AllAttributesParserWrapper::SplitFileString(FileSplittingWrapper* fsw, cons
     auto ret = dynamic_cast<AllAttributesParser*>(parser.get())
                    ->split_file(std::move(str_data), ret_value, msg, single_line_msg, file_splitting);
 
-    *value  = new char*[ret_value.size()];
+    *value  = new char*[ret_value.size()]{};
     *length = static_cast<int>(ret_value.size());
 
     for (size_t x = 0; x < ret_value.size(); ++x)
-- 
2.43.0


From f5457423dba1cc604076e0faa6bd38f45b170ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:41 +0000
Subject: [PATCH 36/36] fix: configuration files that cannot be read are
 reported on every check, also when they are missing

---
 nclangsrv/NCParser.cpp | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/nclangsrv/NCParser.cpp b/nclangsrv/NCParser.cpp
index 6007d4c..3afd106 100644
--- a/nclangsrv/NCParser.cpp
+++ b/nclangsrv/NCParser.cpp
@@ -271,47 +271,45 @@ std::tuple<std::vector<std::string>, fanuc::macro_map, PathTimeResult> NCParser:
         std::ostringstream ostr;
         ostr << mNcSettingsReader.getFanucParserType();
         const std::string grammarPath =
-            fs::canonical(fsRootPath / fs::path("conf") / fs::path(ostr.str()) / fs::path("grammar.json")).string();
+            (fsRootPath / fs::path("conf") / fs::path(ostr.str()) / fs::path("grammar.json")).string();
         if (mLogger)
             LOGGER << "NCParser::" << __func__ << ": grammarPath: " << grammarPath << std::endl;
         mWordGrammarReader = std::make_unique<WordGrammarReader>(grammarPath, mLogger);
-
-        if (!mWordGrammarReader->read())
-            return {{"ERROR: Couldn't read word grammar settings"}, {}, {}};
     }
 
+    if (!mWordGrammarReader->read())
+        return {{"ERROR: Couldn't read word grammar settings"}, {}, {}};
+
     if (!mGCodeGroupsReader.get())
     {
         const auto         fsRootPath = fs::path(mRootPath);
         std::ostringstream ostr;
         ostr << mNcSettingsReader.getFanucParserType();
         const std::string gCodeGroupsPath =
-            fs::canonical(fsRootPath / fs::path("conf") / fs::path(ostr.str()) / fs::path("gcode_groups.json"))
-                .string();
+            (fsRootPath / fs::path("conf") / fs::path(ostr.str()) / fs::path("gcode_groups.json")).string();
         if (mLogger)
             LOGGER << "NCParser::" << __func__ << ": gCodeGroupsPath: " << gCodeGroupsPath << std::endl;
         mGCodeGroupsReader = std::make_unique<CodeGroupsReader>(gCodeGroupsPath, mLogger);
-
-        if (!mGCodeGroupsReader->read())
-            return {{"ERROR: Couldn't read gcode groups settings"}, {}, {}};
     }
 
+    if (!mGCodeGroupsReader->read())
+        return {{"ERROR: Couldn't read gcode groups settings"}, {}, {}};
+
     if (!mMCodeGroupsReader.get())
     {
         const auto         fsRootPath = fs::path(mRootPath);
         std::ostringstream ostr;
         ostr << mNcSettingsReader.getFanucParserType();
         const std::string mCodeGroupsPath =
-            fs::canonical(fsRootPath / fs::path("conf") / fs::path(ostr.str()) / fs::path("mcode_groups.json"))
-                .string();
+            (fsRootPath / fs::path("conf") / fs::path(ostr.str()) / fs::path("mcode_groups.json")).string();
         if (mLogger)
             LOGGER << "NCParser::" << __func__ << ": mCodeGroupsPath: " << mCodeGroupsPath << std::endl;
         mMCodeGroupsReader = std::make_unique<CodeGroupsReader>(mCodeGroupsPath, mLogger);
-
-        if (!mMCodeGroupsReader->read())
-            return {{"ERROR: Couldn't read mcode groups settings"}, {}, {}};
     }
 
+    if (!mMCodeGroupsReader->read())
+        return {{"ERROR: Couldn't read mcode groups settings"}, {}, {}};
+
     auto word_grammar = mWordGrammarReader->getWordGrammar();
     auto operations   = mWordGrammarReader->getOperations();
 
-- 
2.43.0

