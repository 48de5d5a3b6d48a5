From 7d39c9abf4ebfffb3e64d271887458ec4a064c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:19 +0000
Subject: [PATCH 01/84] fix: recompute line starts after an incremental change

The incremental update was wrong when an edit joined or split a CR LF pair and
wrote out of bounds when the range ended beyond the last line.
---
 parser_library/src/workspaces/file_impl.cpp | 47 ++-------------------
 1 file changed, 4 insertions(+), 43 deletions(-)

diff --git a/parser_library/src/workspaces/file_impl.cpp b/parser_library/src/workspaces/file_impl.cpp
index efd228d..09bea15 100644
--- a/parser_library/src/workspaces/file_impl.cpp
+++ b/parser_library/src/workspaces/file_impl.cpp
@@ -127,54 +127,15 @@ bool file_impl::get_lsp_editing() { return editing_; }
 // applies a change to the text and updates line begginings
 void file_impl::did_change(range range, std::string new_text)
 {
-    size_t range_end_line = (size_t)range.end.line;
-    size_t range_start_line = (size_t)range.start.line;
-
     size_t begin = index_from_position(text_, lines_ind_, range.start);
     size_t end = index_from_position(text_, lines_ind_, range.end);
 
     text_.replace(begin, end - begin, new_text);
 
-    std::vector<size_t> new_lines;
-
-    find_newlines(new_text, new_lines);
-
-
-    size_t old_lines_count = range_end_line - range_start_line;
-    size_t new_lines_count = new_lines.size();
-
-    size_t char_diff = new_text.size() - (end - begin);
-
-    // add or remove lines depending on the difference
-    if (new_lines_count > old_lines_count)
-    {
-        size_t diff = new_lines_count - old_lines_count;
-        lines_ind_.insert(lines_ind_.end(), diff, 0);
-
-        for (size_t i = lines_ind_.size() - 1; i > range_end_line + diff; --i)
-        {
-            lines_ind_[i] = lines_ind_[i - diff] + char_diff;
-        }
-    }
-    else
-    {
-        size_t diff = old_lines_count - new_lines_count;
-
-        for (size_t i = range_start_line + 1 + new_lines_count; i < lines_ind_.size() - diff; ++i)
-        {
-            lines_ind_[i] = lines_ind_[i + diff] + char_diff;
-        }
-
-        for (size_t i = 0; i < diff; ++i)
-            lines_ind_.pop_back();
-    }
-
-
-    for (size_t i = range_start_line + 1; i <= range_start_line + new_lines_count; ++i)
-    {
-        lines_ind_[i] = new_lines[i - (size_t)range_start_line - 1] + begin;
-    }
-
+    // a line end may be joined or split by the edit, and the range may reach beyond the last line
+    lines_ind_.clear();
+    lines_ind_.push_back(0);
+    find_newlines(text_, lines_ind_);
 
     ++version_;
 }
-- 
2.43.0


From 4ca0999b9220b32e1c2d09589d85662ebe1b8d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:19 +0000
Subject: [PATCH 02/84] fix: limit the column of a position to its line

A column beyond the end of a line was counted on into the following lines.
---
 parser_library/src/workspaces/file_impl.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser_library/src/workspaces/file_impl.cpp b/parser_library/src/workspaces/file_impl.cpp
index 09bea15..7a7e29f 100644
--- a/parser_library/src/workspaces/file_impl.cpp
+++ b/parser_library/src/workspaces/file_impl.cpp
@@ -199,7 +199,8 @@ size_t file_impl::index_from_position(const std::string& text, const std::vector
     size_t i = line_indices[loc.line];
     size_t utf16_counter = 0;
 
-    while (utf16_counter < end && i < text.size())
+    // a column beyond the end of the line means the end of the line
+    while (utf16_counter < end && i < text.size() && text[i] != '\n' && text[i] != '\r')
     {
         if (!utf8_one_byte_begin(text[i]))
         {
-- 
2.43.0


From 9d652ed5cf9bbdb147bbe0727d7c7a7ea72b1062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:49 +0000
Subject: [PATCH 03/84] fix: replace overlong, surrogate and out of range UTF-8
 sequences of files on disk

They were taken for valid characters and made the JSON serialization of any
message quoting them throw.
---
 parser_library/src/workspaces/file_impl.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/parser_library/src/workspaces/file_impl.cpp b/parser_library/src/workspaces/file_impl.cpp
index 7a7e29f..3d99d30 100644
--- a/parser_library/src/workspaces/file_impl.cpp
+++ b/parser_library/src/workspaces/file_impl.cpp
@@ -269,6 +269,15 @@ std::string file_impl::replace_non_utf8_chars(const std::string& text)
             }
         }
 
+        // overlong forms, surrogates and values beyond U+10FFFF are not valid UTF-8
+        if (OK && ch_len > 1)
+        {
+            const auto first = (uint8_t)text[i];
+            const auto second = (uint8_t)text[i + 1];
+            OK = !(first < 0xC2 || (first == 0xE0 && second < 0xA0) || (first == 0xED && second > 0x9F)
+                || (first == 0xF0 && second < 0x90) || (first == 0xF4 && second > 0x8F) || first > 0xF4);
+        }
+
         if (OK)
         {
             // copy the character to output
-- 
2.43.0


From 6e2e3c9b7932ec13eb282efc80bea7027b7f8ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:24 +0000
Subject: [PATCH 04/84] fix: wait for the running request of a server even when
 no request is queued

finish_server_requests returned at once when the queue was empty, and the
caller destroyed the server while the worker was still executing its last
request on it.
---
 language_server/src/request_manager.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/language_server/src/request_manager.cpp b/language_server/src/request_manager.cpp
index 3378790..a0d6e41 100644
--- a/language_server/src/request_manager.cpp
+++ b/language_server/src/request_manager.cpp
@@ -114,9 +114,7 @@ void request_manager::finish_server_requests(server* to_finish)
 {
     std::lock_guard guard(q_mtx_);
 
-    if (requests_.empty())
-        return;
-
+    // the queue may be empty while the last request of the server is still running
     if (cancel_)
         *cancel_ = true;
 
-- 
2.43.0


From 04d4f5cbbca38bcde0d87007dce0391701270866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:30 +0000
Subject: [PATCH 05/84] fix: make the shutdown and exit flags of a server
 atomic

They are set by the worker thread and read by the thread reading messages.
---
 language_server/src/server.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/language_server/src/server.h b/language_server/src/server.h
index b1d8146..29e9ce9 100644
--- a/language_server/src/server.h
+++ b/language_server/src/server.h
@@ -15,6 +15,7 @@
 #ifndef HLASMPLUGIN_LANGUAGESERVER_SERVER
 #define HLASMPLUGIN_LANGUAGESERVER_SERVER
 
+#include <atomic>
 #include <unordered_set>
 
 #include "common_types.h"
@@ -60,8 +61,8 @@ protected:
     std::map<std::string, method> methods_;
     std::unordered_map<json, method> request_handlers_;
 
-    bool shutdown_request_received_ = false;
-    bool exit_notification_received_ = false;
+    std::atomic<bool> shutdown_request_received_ = false;
+    std::atomic<bool> exit_notification_received_ = false;
 
     parser_library::workspace_manager& ws_mngr_;
 
-- 
2.43.0


From cda4ce12d3804e5c5af42b662f24daa036ff82ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:00 +0000
Subject: [PATCH 06/84] fix: a disconnect before a stop must not leave the
 debugger's variable mutex unlocked

---
 parser_library/src/debugging/debugger.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser_library/src/debugging/debugger.cpp b/parser_library/src/debugging/debugger.cpp
index e89d7cb..4559f62 100644
--- a/parser_library/src/debugging/debugger.cpp
+++ b/parser_library/src/debugging/debugger.cpp
@@ -193,7 +193,11 @@ public:
 
             std::unique_lock<std::mutex> lck(control_mtx);
             if (disconnected_)
+            {
+                lck.unlock();
+                variable_mtx_.lock(); // released by the guard of the analyzing thread
                 return;
+            }
             stop_on_next_stmt_ = false;
             step_over_ = false;
             next_stmt_range_ = stmt_range;
-- 
2.43.0


From b4e669446eaff05980680fbe1b4bd39bc8205b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:00 +0000
Subject: [PATCH 07/84] fix: continue command could be lost when it arrived
 just before the debugger started to wait

---
 parser_library/src/debugging/debugger.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/parser_library/src/debugging/debugger.cpp b/parser_library/src/debugging/debugger.cpp
index 4559f62..66af7c3 100644
--- a/parser_library/src/debugging/debugger.cpp
+++ b/parser_library/src/debugging/debugger.cpp
@@ -253,8 +253,11 @@ public:
 
     void continue_debug()
     {
-        stop_on_next_stmt_ = false;
-        continue_ = true;
+        {
+            std::lock_guard<std::mutex> lck(control_mtx);
+            stop_on_next_stmt_ = false;
+            continue_ = true;
+        }
         con_var.notify_all();
     }
 
-- 
2.43.0


From 279ae1290064355997d08693290fcfe81e1b5148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:00 +0000
Subject: [PATCH 08/84] fix: debugger reads the disconnected flag from another
 thread

---
 parser_library/src/debugging/debugger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser_library/src/debugging/debugger.cpp b/parser_library/src/debugging/debugger.cpp
index 66af7c3..0c6776d 100644
--- a/parser_library/src/debugging/debugger.cpp
+++ b/parser_library/src/debugging/debugger.cpp
@@ -95,7 +95,7 @@ class debugger::impl final : public processing::statement_analyzer
     range next_stmt_range_;
 
     // True, if disconnect request was received
-    bool disconnected_ = false;
+    std::atomic<bool> disconnected_ = false;
 
     // Cancellation token for parsing
     std::atomic<bool> cancel_ = false;
-- 
2.43.0


From 03b854cc39e51911f8d9d4905866ce0817b9e6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:00 +0000
Subject: [PATCH 09/84] fix: step over command must not access the context of
 an assembly that runs or is over

---
 parser_library/src/debugging/debugger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser_library/src/debugging/debugger.cpp b/parser_library/src/debugging/debugger.cpp
index 0c6776d..218c81b 100644
--- a/parser_library/src/debugging/debugger.cpp
+++ b/parser_library/src/debugging/debugger.cpp
@@ -200,6 +200,7 @@ public:
             }
             stop_on_next_stmt_ = false;
             step_over_ = false;
+            step_over_depth_ = proc_stack_.size();
             next_stmt_range_ = stmt_range;
 
             continue_ = false;
@@ -218,7 +219,6 @@ public:
         {
             std::lock_guard<std::mutex> lck(control_mtx);
             step_over_ = true;
-            step_over_depth_ = ctx_->processing_stack().size();
             continue_ = true;
         }
         con_var.notify_all();
-- 
2.43.0


From 2535fc375aa9ef2bf261bced440a768340516ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:18 +0000
Subject: [PATCH 10/84] fix: second launch of a debug session must not
 terminate the server

---
 parser_library/src/debugging/debugger.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser_library/src/debugging/debugger.cpp b/parser_library/src/debugging/debugger.cpp
index 218c81b..072843d 100644
--- a/parser_library/src/debugging/debugger.cpp
+++ b/parser_library/src/debugging/debugger.cpp
@@ -127,7 +127,10 @@ public:
     void launch(
         std::string_view source, workspaces::workspace& workspace, bool stop_on_entry, parse_lib_provider* lib_provider)
     {
-        // TODO: check if already running???
+        // a session is launched only once
+        if (thread_.joinable())
+            return;
+
         auto open_code = workspace.get_processor_file(std::string(source));
         opencode_source_path_ = open_code->get_file_name();
         stop_on_next_stmt_ = stop_on_entry;
-- 
2.43.0


From e8845bfae59cb3ae0574055bb9c66a84aab5b9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:16 +0000
Subject: [PATCH 11/84] fix: malformed textDocument message must not end the
 language server

---
 language_server/src/request_manager.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/language_server/src/request_manager.cpp b/language_server/src/request_manager.cpp
index a0d6e41..d8815b3 100644
--- a/language_server/src/request_manager.cpp
+++ b/language_server/src/request_manager.cpp
@@ -144,9 +144,9 @@ std::string request_manager::get_request_file_(json r, bool* is_parsing_required
     constexpr const char* didChange = "textDocument/didChange";
 
     auto found = r.find("method");
-    if (found == r.end())
+    if (found == r.end() || !found->is_string())
         return "";
-    auto method = r["method"].get<std::string>();
+    auto method = found->get<std::string>();
     if (method.substr(0, 12) == "textDocument")
     {
         if (is_parsing_required)
@@ -156,7 +156,17 @@ std::string request_manager::get_request_file_(json r, bool* is_parsing_required
             else
                 *is_parsing_required = false;
         }
-        return r["params"]["textDocument"]["uri"].get<std::string>();
+        // malformed messages are not related to any file
+        auto params = r.find("params");
+        if (params == r.end())
+            return "";
+        auto document = params->find("textDocument");
+        if (document == params->end())
+            return "";
+        auto uri = document->find("uri");
+        if (uri == document->end() || !uri->is_string())
+            return "";
+        return uri->get<std::string>();
     }
     return std::string();
 }
\ No newline at end of file
-- 
2.43.0


From d8cf707700870acbd2134a7f1154f3fdd27f2e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:16 +0000
Subject: [PATCH 12/84] fix: missing arguments of a debug request must not
 crash the server

---
 language_server/src/dap/dap_feature.cpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/language_server/src/dap/dap_feature.cpp b/language_server/src/dap/dap_feature.cpp
index e8216e4..0ed415e 100644
--- a/language_server/src/dap/dap_feature.cpp
+++ b/language_server/src/dap/dap_feature.cpp
@@ -95,11 +95,12 @@ void dap_feature::exited(int exit_code)
 
 void dap_feature::on_initialize(const json& requested_seq, const json& args)
 {
-    response_->respond(requested_seq, "initialize", json { { "supportsConfigurationDoneRequest", true } });
+    // all of these arguments are optional
+    line_1_based_ = args.value("linesStartAt1", true) ? 1 : 0;
+    column_1_based_ = args.value("columnsStartAt1", true) ? 1 : 0;
+    path_format_ = args.value("pathFormat", std::string("path")) == "path" ? path_format::PATH : path_format::URI;
 
-    line_1_based_ = args["linesStartAt1"].get<bool>() ? 1 : 0;
-    column_1_based_ = args["columnsStartAt1"].get<bool>() ? 1 : 0;
-    path_format_ = args["pathFormat"].get<std::string>() == "path" ? path_format::PATH : path_format::URI;
+    response_->respond(requested_seq, "initialize", json { { "supportsConfigurationDoneRequest", true } });
 
     debugger.emplace();
 
@@ -122,8 +123,8 @@ void dap_feature::on_launch(const json& request_seq, const json& args)
         return;
 
     // wait for configurationDone?
-    std::string program_path = convert_path(args["program"].get<std::string>(), path_format_);
-    bool stop_on_entry = args["stopOnEntry"].get<bool>();
+    std::string program_path = convert_path(args.at("program").get<std::string>(), path_format_);
+    bool stop_on_entry = args.value("stopOnEntry", false);
     auto workspace_id = ws_mngr_.find_workspace(program_path.c_str());
     debugger->set_event_consumer(this);
     debugger->launch(program_path.c_str(), *workspace_id, stop_on_entry);
@@ -138,14 +139,14 @@ void dap_feature::on_set_breakpoints(const json& request_seq, const json& args)
 
     json breakpoints_verified = json::array();
 
-    std::string source = convert_path(args["source"]["path"].get<std::string>(), path_format_);
+    std::string source = convert_path(args.at("source").at("path").get<std::string>(), path_format_);
     std::vector<parser_library::breakpoint> breakpoints;
 
     if (auto bpoints_found = args.find("breakpoints"); bpoints_found != args.end())
     {
         for (auto& bp_json : bpoints_found.value())
         {
-            breakpoints.emplace_back(bp_json["line"].get<json::number_unsigned_t>() - line_1_based_);
+            breakpoints.emplace_back(bp_json.at("line").get<json::number_unsigned_t>() - line_1_based_);
             breakpoints_verified.push_back(json { { "verified", true } });
         }
     }
@@ -208,7 +209,7 @@ void dap_feature::on_scopes(const json& request_seq, const json& args)
 
     nlohmann::json scopes_json = json::array();
 
-    for (const auto& s : debugger->scopes(args["frameId"].get<json::number_unsigned_t>()))
+    for (const auto& s : debugger->scopes(args.at("frameId").get<json::number_unsigned_t>()))
     {
         auto scope = parser_library::scope(s);
         json scope_json = json { { "name", std::string_view(scope.name) },
@@ -248,7 +249,7 @@ void dap_feature::on_variables(const json& request_seq, const json& args)
 
     nlohmann::json variables_json = json::array();
 
-    for (auto var : debugger->variables(args["variablesReference"]))
+    for (auto var : debugger->variables(args.at("variablesReference")))
     {
         std::string type;
         switch (var.type)
-- 
2.43.0


From 9b669f03bd601f193d01150a46d2c0a98654992e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:16 +0000
Subject: [PATCH 13/84] fix: invalid path in a debug request must not crash the
 server

---
 language_server/src/dap/dap_server.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/language_server/src/dap/dap_server.cpp b/language_server/src/dap/dap_server.cpp
index e278a4a..4bb6dbc 100644
--- a/language_server/src/dap/dap_server.cpp
+++ b/language_server/src/dap/dap_server.cpp
@@ -79,7 +79,7 @@ void server::message_received(const json& message)
         else
             call_method(message.at("command").get<std::string>(), message.at("seq"), arguments.value());
     }
-    catch (const nlohmann::json::exception& e)
+    catch (const std::exception& e)
     {
         (void)e;
         LOG_WARNING(std::string("There was an error with received request:") + e.what());
-- 
2.43.0


From 2b34c8dec2015a028936086938868a7d0d000ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:14 +0000
Subject: [PATCH 14/84] fix: malformed response from the client must not
 terminate the language server

---
 language_server/src/lsp/lsp_server.cpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/language_server/src/lsp/lsp_server.cpp b/language_server/src/lsp/lsp_server.cpp
index 785d99c..c104ec1 100644
--- a/language_server/src/lsp/lsp_server.cpp
+++ b/language_server/src/lsp/lsp_server.cpp
@@ -65,7 +65,15 @@ void server::message_received(const json& message)
 
         method handler = handler_found->second;
         request_handlers_.erase(handler_found);
-        handler(id_found.value(), result_found.value());
+        try
+        {
+            handler(id_found.value(), result_found.value());
+        }
+        catch (const std::exception& e)
+        {
+            (void)e;
+            LOG_WARNING(std::string("There was an error with received response:") + e.what());
+        }
         return;
     }
     else if (error_result_found != message.end())
@@ -75,7 +83,8 @@ void server::message_received(const json& message)
         if (message_found != error_result_found->end())
             warn_message = message_found->dump();
         else
-            warn_message = "Request with id " + id_found->dump() + " returned with unspecified error.";
+            warn_message = "Request with id " + (id_found == message.end() ? "(none)" : id_found->dump())
+                + " returned with unspecified error.";
         LOG_WARNING(warn_message);
         return;
     }
@@ -83,23 +92,26 @@ void server::message_received(const json& message)
     auto params_found = message.find("params");
     auto method_found = message.find("method");
 
-    if (params_found == message.end() || method_found == message.end())
+    if (method_found == message.end())
     {
-        LOG_WARNING("Method or params missing from received request or notification");
+        LOG_WARNING("Method missing from received request or notification");
         return;
     }
 
+    // the params are optional (e.g. for the shutdown request and the exit notification)
+    const json params = params_found == message.end() ? json() : params_found.value();
+
     try
     {
         if (id_found == message.end())
         {
             // notification
-            call_method(method_found.value().get<std::string>(), "", params_found.value());
+            call_method(method_found.value().get<std::string>(), "", params);
         }
         else
         {
             // method
-            call_method(method_found.value().get<std::string>(), id_found.value(), params_found.value());
+            call_method(method_found.value().get<std::string>(), id_found.value(), params);
         }
     }
     catch (const std::exception& e)
-- 
2.43.0


From f3c0237105ebb647cd393de46108fe6546d104e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:14 +0000
Subject: [PATCH 15/84] fix: missing members of an LSP message must not crash
 the server

---
 language_server/src/feature.cpp               |  6 ++--
 .../src/lsp/feature_language_features.cpp     | 30 +++++++++----------
 .../src/lsp/feature_text_synchronization.cpp  | 24 +++++++--------
 .../src/lsp/feature_workspace_folders.cpp     | 22 +++++++-------
 4 files changed, 41 insertions(+), 41 deletions(-)

diff --git a/language_server/src/feature.cpp b/language_server/src/feature.cpp
index ca4f2f3..3b92ce9 100644
--- a/language_server/src/feature.cpp
+++ b/language_server/src/feature.cpp
@@ -105,13 +105,13 @@ std::string feature::path_to_uri(std::string_view path)
 
 parser_library::range feature::parse_range(const json& range_json)
 {
-    return { parse_position(range_json["start"]), parse_position(range_json["end"]) };
+    return { parse_position(range_json.at("start")), parse_position(range_json.at("end")) };
 }
 
 parser_library::position feature::parse_position(const json& position_json)
 {
-    return { position_json["line"].get<nlohmann::json::number_unsigned_t>(),
-        position_json["character"].get<nlohmann::json::number_unsigned_t>() };
+    return { position_json.at("line").get<nlohmann::json::number_unsigned_t>(),
+        position_json.at("character").get<nlohmann::json::number_unsigned_t>() };
 }
 
 json feature::range_to_json(const parser_library::range& range)
diff --git a/language_server/src/lsp/feature_language_features.cpp b/language_server/src/lsp/feature_language_features.cpp
index 756b921..bfc3bea 100644
--- a/language_server/src/lsp/feature_language_features.cpp
+++ b/language_server/src/lsp/feature_language_features.cpp
@@ -78,14 +78,13 @@ void feature_language_features::initialize_feature(const json&)
 
 void feature_language_features::definition(const json& id, const json& params)
 {
-    auto document_uri = params["textDocument"]["uri"].get<std::string>();
-    auto pos =
-        parser_library::position(params["position"]["line"].get<int>(), params["position"]["character"].get<int>());
+    auto document_uri = params.at("textDocument").at("uri").get<std::string>();
+    auto pos = parse_position(params.at("position"));
 
 
     auto definition_position_uri = ws_mngr_.definition(uri_to_path(document_uri).c_str(), pos);
     document_uri =
-        (definition_position_uri.file()[0] == '\0') ? document_uri : path_to_uri(definition_position_uri.file());
+        definition_position_uri.file().empty() ? document_uri : path_to_uri(definition_position_uri.file());
     json to_ret { { "uri", document_uri },
         { "range", range_to_json({ definition_position_uri.pos(), definition_position_uri.pos() }) } };
     response_->respond(id, "", to_ret);
@@ -93,9 +92,8 @@ void feature_language_features::definition(const json& id, const json& params)
 
 void feature_language_features::references(const json& id, const json& params)
 {
-    auto document_uri = params["textDocument"]["uri"].get<std::string>();
-    auto pos =
-        parser_library::position(params["position"]["line"].get<int>(), params["position"]["character"].get<int>());
+    auto document_uri = params.at("textDocument").at("uri").get<std::string>();
+    auto pos = parse_position(params.at("position"));
     json to_ret = json::array();
     auto references = ws_mngr_.references(uri_to_path(document_uri).c_str(), pos);
     for (size_t i = 0; i < references.size(); ++i)
@@ -108,9 +106,8 @@ void feature_language_features::references(const json& id, const json& params)
 }
 void feature_language_features::hover(const json& id, const json& params)
 {
-    auto document_uri = params["textDocument"]["uri"].get<std::string>();
-    auto pos =
-        parser_library::position(params["position"]["line"].get<int>(), params["position"]["character"].get<int>());
+    auto document_uri = params.at("textDocument").at("uri").get<std::string>();
+    auto pos = parse_position(params.at("position"));
 
 
     auto hover_list = ws_mngr_.hover(uri_to_path(document_uri).c_str(), pos);
@@ -166,11 +163,12 @@ json feature_language_features::get_markup_content(std::string_view content)
 
 void feature_language_features::completion(const json& id, const json& params)
 {
-    auto document_uri = params["textDocument"]["uri"].get<std::string>();
-    auto pos =
-        parser_library::position(params["position"]["line"].get<int>(), params["position"]["character"].get<int>());
+    auto document_uri = params.at("textDocument").at("uri").get<std::string>();
+    auto pos = parse_position(params.at("position"));
 
-    int trigger_kind_int = params["context"]["triggerKind"].get<int>();
+    // the context is optional, it is sent only when the client supports it
+    const auto context = params.value("context", json::object());
+    int trigger_kind_int = context.value("triggerKind", 1);
     parser_library::completion_trigger_kind trigger_kind = (trigger_kind_int >= 1 && trigger_kind_int <= 3)
         ? (parser_library::completion_trigger_kind)trigger_kind_int
         : parser_library::completion_trigger_kind::invoked;
@@ -178,7 +176,7 @@ void feature_language_features::completion(const json& id, const json& params)
     // no trigger character
     char trigger_char = '\0';
     if (trigger_kind == parser_library::completion_trigger_kind::trigger_character)
-        trigger_char = params["context"]["triggerCharacter"].get<std::string>()[0];
+        trigger_char = context.at("triggerCharacter").get<std::string>().c_str()[0];
 
     auto completion_list = ws_mngr_.completion(uri_to_path(document_uri).c_str(), pos, trigger_char, trigger_kind);
     json to_ret = json::value_t::null;
@@ -236,7 +234,7 @@ json convert_tokens_to_num_array(const std::vector<parser_library::token_info>&
 
 void feature_language_features::semantic_tokens(const json& id, const json& params)
 {
-    auto document_uri = params["textDocument"]["uri"].get<std::string>();
+    auto document_uri = params.at("textDocument").at("uri").get<std::string>();
 
     auto tokens = ws_mngr_.semantic_tokens(uri_to_path(document_uri).c_str());
     json num_array = convert_tokens_to_num_array(tokens);
diff --git a/language_server/src/lsp/feature_text_synchronization.cpp b/language_server/src/lsp/feature_text_synchronization.cpp
index 2ac129a..24be08e 100644
--- a/language_server/src/lsp/feature_text_synchronization.cpp
+++ b/language_server/src/lsp/feature_text_synchronization.cpp
@@ -55,10 +55,10 @@ void feature_text_synchronization::initialize_feature(const json&)
 
 void feature_text_synchronization::on_did_open(const json&, const json& params)
 {
-    json text_doc = params["textDocument"];
-    std::string doc_uri = text_doc["uri"].get<std::string>();
-    auto version = text_doc["version"].get<nlohmann::json::number_unsigned_t>();
-    std::string text = text_doc["text"].get<std::string>();
+    json text_doc = params.at("textDocument");
+    std::string doc_uri = text_doc.at("uri").get<std::string>();
+    auto version = text_doc.at("version").get<nlohmann::json::number_unsigned_t>();
+    std::string text = text_doc.at("text").get<std::string>();
 
     auto path = uri_to_path(doc_uri);
 
@@ -73,19 +73,19 @@ void feature_text_synchronization::on_did_open(const json&, const json& params)
 
 void feature_text_synchronization::on_did_change(const json&, const json& params)
 {
-    json text_doc = params["textDocument"];
-    std::string doc_uri = text_doc["uri"].get<std::string>();
+    json text_doc = params.at("textDocument");
+    std::string doc_uri = text_doc.at("uri").get<std::string>();
 
-    auto version = text_doc["version"].get<nlohmann::json::number_unsigned_t>();
+    auto version = text_doc.at("version").get<nlohmann::json::number_unsigned_t>();
 
-    json content_changes = params["contentChanges"];
+    json content_changes = params.at("contentChanges");
 
     std::vector<parser_library::document_change> changes;
     std::vector<std::string> texts(content_changes.size());
     size_t i = 0;
     for (auto& ch : content_changes)
     {
-        texts[i] = ch["text"].get<std::string>();
+        texts[i] = ch.at("text").get<std::string>();
 
         auto range_it = ch.find("range");
         if (range_it == ch.end())
@@ -94,17 +94,17 @@ void feature_text_synchronization::on_did_change(const json&, const json& params
         }
         else
         {
-            changes.emplace_back(parse_range(ch["range"]), texts[i].c_str(), texts[i].size());
+            changes.emplace_back(parse_range(*range_it), texts[i].c_str(), texts[i].size());
         }
 
         ++i;
     }
-    ws_mngr_.did_change_file(uri_to_path(doc_uri).c_str(), version, &*changes.begin(), changes.size());
+    ws_mngr_.did_change_file(uri_to_path(doc_uri).c_str(), version, changes.data(), changes.size());
 }
 
 void feature_text_synchronization::on_did_close(const json&, const json& params)
 {
-    std::string uri = params["textDocument"]["uri"].get<std::string>();
+    std::string uri = params.at("textDocument").at("uri").get<std::string>();
 
     ws_mngr_.did_close_file(uri_to_path(uri).c_str());
 }
diff --git a/language_server/src/lsp/feature_workspace_folders.cpp b/language_server/src/lsp/feature_workspace_folders.cpp
index e3067e3..2e2ea0e 100644
--- a/language_server/src/lsp/feature_workspace_folders.cpp
+++ b/language_server/src/lsp/feature_workspace_folders.cpp
@@ -57,7 +57,7 @@ void feature_workspace_folders::initialize_feature(const json& initialize_params
     send_configuration_request();
 
     bool ws_folders_support = false;
-    auto capabs = initialize_params["capabilities"];
+    auto capabs = initialize_params.value("capabilities", json::object());
     auto ws = capabs.find("workspace");
     if (ws != capabs.end())
     {
@@ -68,7 +68,9 @@ void feature_workspace_folders::initialize_feature(const json& initialize_params
 
     if (ws_folders_support)
     {
-        add_workspaces(initialize_params["workspaceFolders"]);
+        auto ws_folders = initialize_params.find("workspaceFolders");
+        if (ws_folders != initialize_params.end())
+            add_workspaces(*ws_folders);
         return;
     }
 
@@ -92,8 +94,8 @@ void feature_workspace_folders::initialize_feature(const json& initialize_params
 
 void feature_workspace_folders::on_did_change_workspace_folders(const json&, const json& params)
 {
-    const auto& added = params["event"]["added"];
-    const auto& removed = params["event"]["removed"];
+    const auto& added = params.at("event").at("added");
+    const auto& removed = params.at("event").at("removed");
 
     remove_workspaces(removed);
     add_workspaces(added);
@@ -103,8 +105,8 @@ void feature_workspace_folders::add_workspaces(const json& added)
 {
     for (auto& it : added)
     {
-        const std::string& name = it["name"].get<std::string>();
-        std::string uri = it["uri"].get<std::string>();
+        const std::string& name = it.at("name").get<std::string>();
+        std::string uri = it.at("uri").get<std::string>();
 
         add_workspace(name, uri_to_path(uri));
     }
@@ -113,7 +115,7 @@ void feature_workspace_folders::remove_workspaces(const json& removed)
 {
     for (auto ws : removed)
     {
-        std::string uri = ws["uri"].get<std::string>();
+        std::string uri = ws.at("uri").get<std::string>();
 
         ws_mngr_.remove_workspace(uri_to_path(uri).c_str());
     }
@@ -125,13 +127,13 @@ void feature_workspace_folders::add_workspace(const std::string& name, const std
 
 void feature_workspace_folders::did_change_watched_files(const json&, const json& params)
 {
-    std::vector<json> changes = params["changes"];
+    std::vector<json> changes = params.at("changes");
     std::vector<std::string> paths;
     for (auto& change : changes)
     {
         try
         {
-            paths.push_back(uri_to_path(change["uri"].get<std::string>()));
+            paths.push_back(uri_to_path(change.at("uri").get<std::string>()));
         }
         catch (const std::system_error& e)
         {
@@ -163,7 +165,7 @@ void feature_workspace_folders::configuration(const json&, const json& params) c
         return;
     }
 
-    ws_mngr_.configuration_changed(parser_library::lib_config::load_from_json(params[0]));
+    ws_mngr_.configuration_changed(parser_library::lib_config::load_from_json(params.at(0)));
 }
 
 void feature_workspace_folders::did_change_configuration(const json&, const json&) { send_configuration_request(); }
-- 
2.43.0


From 5f2020fc7907b6b8c12fe28c4e081185a2c9b789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:19 +0000
Subject: [PATCH 16/84] fix: arithmetic shifts by zero, by 32 or more and into
 the sign bit

---
 .../expressions/conditional_assembly/ca_operator_binary.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser_library/src/expressions/conditional_assembly/ca_operator_binary.cpp b/parser_library/src/expressions/conditional_assembly/ca_operator_binary.cpp
index 55b8056..66ccd1d 100644
--- a/parser_library/src/expressions/conditional_assembly/ca_operator_binary.cpp
+++ b/parser_library/src/expressions/conditional_assembly/ca_operator_binary.cpp
@@ -103,7 +103,7 @@ context::A_t shift_operands(context::A_t lhs, context::A_t rhs, ca_expr_ops shif
 {
     auto shift_part = rhs & 0x3f; // first 6 bits
     if (shift_part == 0)
-        return rhs;
+        return lhs;
 
     std::uint32_t unsigned_lhs = lhs;
     auto sign_bit = unsigned_lhs & (1U << 31);
@@ -118,7 +118,7 @@ context::A_t shift_operands(context::A_t lhs, context::A_t rhs, ca_expr_ops shif
                 result = sign_bit;
                 break;
             case ca_expr_ops::SRA:
-                result = ~0U;
+                result = sign_bit ? ~0U : 0;
                 break;
             default:
                 result = 0;
@@ -130,7 +130,7 @@ context::A_t shift_operands(context::A_t lhs, context::A_t rhs, ca_expr_ops shif
     switch (shift)
     {
         case ca_expr_ops::SLA:
-            result = (unsigned_lhs << shift_part) | sign_bit;
+            result = ((unsigned_lhs << shift_part) & ~(1U << 31)) | sign_bit;
             break;
         case ca_expr_ops::SLL:
             result = unsigned_lhs << shift_part;
-- 
2.43.0


From dd66ab11829add19596a2e4d2ce5ff47a5b04540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:19 +0000
Subject: [PATCH 17/84] fix: comparison of distant arithmetic values overflowed

---
 .../src/expressions/conditional_assembly/ca_operator_binary.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser_library/src/expressions/conditional_assembly/ca_operator_binary.cpp b/parser_library/src/expressions/conditional_assembly/ca_operator_binary.cpp
index 66ccd1d..9f4d32a 100644
--- a/parser_library/src/expressions/conditional_assembly/ca_operator_binary.cpp
+++ b/parser_library/src/expressions/conditional_assembly/ca_operator_binary.cpp
@@ -233,7 +233,7 @@ int ca_function_binary_operator::compare_relational(
     switch (type)
     {
         case context::SET_t_enum::A_TYPE:
-            return lhs.access_a() - rhs.access_a();
+            return (lhs.access_a() > rhs.access_a()) - (lhs.access_a() < rhs.access_a());
         case context::SET_t_enum::C_TYPE:
             return compare_string(lhs.access_c(), rhs.access_c());
         default:
-- 
2.43.0


From f699f6ac13712397a247a94bc9cd88761eb7b512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:19 +0000
Subject: [PATCH 18/84] fix: precedence of operators in conditional assembly
 expressions with more than two operators

---
 .../terms/ca_expr_list.cpp                    | 45 ++++++++++---------
 1 file changed, 25 insertions(+), 20 deletions(-)

diff --git a/parser_library/src/expressions/conditional_assembly/terms/ca_expr_list.cpp b/parser_library/src/expressions/conditional_assembly/terms/ca_expr_list.cpp
index 12227a9..17c2494 100644
--- a/parser_library/src/expressions/conditional_assembly/terms/ca_expr_list.cpp
+++ b/parser_library/src/expressions/conditional_assembly/terms/ca_expr_list.cpp
@@ -169,6 +169,7 @@ ca_expr_ptr ca_expr_list::retrieve_term(size_t& it, int priority)
 
     // first possible term
     auto& curr_expr = expr_list[it];
+    ca_expr_ptr result;
 
     // is unary op
     if (is_symbol(curr_expr))
@@ -179,36 +180,40 @@ ca_expr_ptr ca_expr_list::retrieve_term(size_t& it, int priority)
             if (!new_expr)
                 return nullptr;
 
-            return std::make_unique<ca_function_unary_operator>(
+            result = std::make_unique<ca_function_unary_operator>(
                 std::move(new_expr), op_type, EXPR_POLICY::set_type, curr_expr->expr_range);
         }
     }
 
-    // is only term
-    if (it + 1 == expr_list.size())
-        return std::move(expr_list[it++]);
+    if (!result)
+        result = std::move(expr_list[it++]);
 
-    // tries to get binary operator
-    auto op_it = ++it;
-    auto op_range = expr_list[op_it]->expr_range;
-    bool err = false;
+    // binds all following operators that are of higher priority than the calling operator
+    while (it != expr_list.size())
+    {
+        auto op_it = it;
+        auto op_range = expr_list[op_it]->expr_range;
+        bool err = false;
 
-    auto [op_prio, op_type] = retrieve_binary_operator<EXPR_POLICY>(op_it, err);
-    if (err)
-        return nullptr;
+        auto [op_prio, op_type] = retrieve_binary_operator<EXPR_POLICY>(op_it, err);
+        if (err)
+            return nullptr;
+
+        // if operator is of lower priority than the calling operator, finish
+        if (op_prio >= priority)
+            break;
 
-    // if operator is of lower priority than the calling operator, finish
-    if (op_prio >= priority)
-        return std::move(curr_expr);
-    else
         it = op_it;
 
-    auto right_expr = retrieve_term<EXPR_POLICY>(++it, op_prio);
-    if (!right_expr)
-        return nullptr;
+        auto right_expr = retrieve_term<EXPR_POLICY>(++it, op_prio);
+        if (!right_expr)
+            return nullptr;
+
+        result = std::make_unique<ca_function_binary_operator>(
+            std::move(result), std::move(right_expr), op_type, EXPR_POLICY::set_type, op_range);
+    }
 
-    return std::make_unique<ca_function_binary_operator>(
-        std::move(curr_expr), std::move(right_expr), op_type, EXPR_POLICY::set_type, op_range);
+    return result;
 }
 
 template<typename EXPR_POLICY>
-- 
2.43.0


From bd494a7c95ffb8fb1f08ab78cdeecf702dab4d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:19 +0000
Subject: [PATCH 19/84] fix: X2C accepted an invalid second digit of a pair

---
 .../expressions/conditional_assembly/terms/ca_function.cpp  | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser_library/src/expressions/conditional_assembly/terms/ca_function.cpp b/parser_library/src/expressions/conditional_assembly/terms/ca_function.cpp
index 5502b8b..59f7bb6 100644
--- a/parser_library/src/expressions/conditional_assembly/terms/ca_function.cpp
+++ b/parser_library/src/expressions/conditional_assembly/terms/ca_function.cpp
@@ -322,7 +322,7 @@ context::SET_t ca_function::ISHEX(const context::C_t& param, diagnostic_adder& a
     if (param.empty())
         RET_ERRPARM;
 
-    if (param.size() <= 8 && std::all_of(param.cbegin(), param.cend(), [](char c) { return std::isxdigit(c); }))
+    if (param.size() <= 8 && std::all_of(param.cbegin(), param.cend(), [](unsigned char c) { return std::isxdigit(c); }))
         return 1;
     return 0;
 }
@@ -641,7 +641,7 @@ context::SET_t ca_function::X2B(const context::C_t& param, diagnostic_adder& add
     for (auto c = param.c_str(); c != param.c_str() + param.size(); ++c)
     {
         unsigned char value = 0;
-        if (std::isxdigit(*c))
+        if (std::isxdigit((unsigned char)*c))
             std::from_chars(c, c + 1, value, 16);
         else
             RET_ERRPARM;
@@ -667,7 +667,7 @@ context::SET_t ca_function::X2C(const context::C_t& param, diagnostic_adder& add
     for (auto c = new_string.c_str(); c != new_string.c_str() + new_string.size(); c += 2)
     {
         unsigned char value = 0;
-        if (std::isxdigit(*c))
+        if (std::isxdigit((unsigned char)c[0]) && std::isxdigit((unsigned char)c[1]))
             std::from_chars(c, c + 2, value, 16);
         else
             RET_ERRPARM;
-- 
2.43.0


From 3609ee18f1f6a4fbeca3ed577d67c05601151196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:31 +0000
Subject: [PATCH 20/84] fix: negation and magnitude of the lowest arithmetic
 value overflowed

---
 .../conditional_assembly/ca_operator_unary.cpp            | 8 +++++++-
 parser_library/src/semantics/concatenation_term.cpp       | 4 +++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/parser_library/src/expressions/conditional_assembly/ca_operator_unary.cpp b/parser_library/src/expressions/conditional_assembly/ca_operator_unary.cpp
index 92c7a09..85a12c0 100644
--- a/parser_library/src/expressions/conditional_assembly/ca_operator_unary.cpp
+++ b/parser_library/src/expressions/conditional_assembly/ca_operator_unary.cpp
@@ -15,6 +15,7 @@
 #include "ca_operator_unary.h"
 
 #include <algorithm>
+#include <limits>
 
 #include "ebcdic_encoding.h"
 #include "expressions/evaluation_context.h"
@@ -112,8 +113,13 @@ ca_minus_operator::ca_minus_operator(ca_expr_ptr expr, range expr_range)
     : ca_unary_operator(std::move(expr), context::SET_t_enum::A_TYPE, std::move(expr_range))
 {}
 
-context::SET_t ca_minus_operator::operation(context::SET_t operand, const evaluation_context&) const
+context::SET_t ca_minus_operator::operation(context::SET_t operand, const evaluation_context& eval_ctx) const
 {
+    if (operand.access_a() == std::numeric_limits<context::A_t>::min())
+    {
+        eval_ctx.add_diagnostic(diagnostic_op::error_CE013(expr_range));
+        return 0;
+    }
     return -operand.access_a();
 }
 
diff --git a/parser_library/src/semantics/concatenation_term.cpp b/parser_library/src/semantics/concatenation_term.cpp
index 719d454..693a946 100644
--- a/parser_library/src/semantics/concatenation_term.cpp
+++ b/parser_library/src/semantics/concatenation_term.cpp
@@ -15,6 +15,8 @@
 #include "concatenation_term.h"
 
 #include <cassert>
+#include <cstdint>
+#include <cstdlib>
 
 namespace hlasm_plugin::parser_library::semantics {
 
@@ -43,7 +45,7 @@ std::string var_sym_conc::evaluate(context::SET_t varsym_value)
     switch (varsym_value.type)
     {
         case context::SET_t_enum::A_TYPE:
-            return std::to_string(std::abs(varsym_value.access_a()));
+            return std::to_string(std::abs((std::int64_t)varsym_value.access_a()));
         case context::SET_t_enum::B_TYPE:
             return varsym_value.access_b() ? "1" : "0";
         case context::SET_t_enum::C_TYPE:
-- 
2.43.0


From 280941caf66378c901c34eda7df54d2a8c4e4145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:45 +0000
Subject: [PATCH 21/84] fix: C2A counted the bytes of an argument instead of
 its characters

---
 .../expressions/conditional_assembly/terms/ca_function.cpp  | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser_library/src/expressions/conditional_assembly/terms/ca_function.cpp b/parser_library/src/expressions/conditional_assembly/terms/ca_function.cpp
index 59f7bb6..550ade7 100644
--- a/parser_library/src/expressions/conditional_assembly/terms/ca_function.cpp
+++ b/parser_library/src/expressions/conditional_assembly/terms/ca_function.cpp
@@ -221,12 +221,12 @@ context::SET_t ca_function::C2A(std::string_view param, diagnostic_adder& add_di
     if (param.empty())
         return 0;
 
-    if (param.size() > 4)
-        RET_ERRPARM;
-
+    size_t count = 0; // of characters, one character may take more bytes
     context::A_t ret = 0;
     for (const char* c = param.data(); c < param.data() + param.size(); ++c)
     {
+        if (++count > 4)
+            RET_ERRPARM;
         ret <<= 8;
         ret += ebcdic_encoding::to_ebcdic(ebcdic_encoding::to_pseudoascii(c));
     }
-- 
2.43.0


From 4bcf32452339bd66bc4f306fc017f9cbca80cb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:24 +0000
Subject: [PATCH 22/84] fix: an omitted operand of a SET statement leaves its
 element unchanged

---
 .../src/processing/instruction_sets/ca_processor.cpp          | 3 +++
 parser_library/src/processing/instruction_sets/ca_processor.h | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/parser_library/src/processing/instruction_sets/ca_processor.cpp b/parser_library/src/processing/instruction_sets/ca_processor.cpp
index b1d6296..c41493b 100644
--- a/parser_library/src/processing/instruction_sets/ca_processor.cpp
+++ b/parser_library/src/processing/instruction_sets/ca_processor.cpp
@@ -172,7 +172,10 @@ bool ca_processor::prepare_SET_operands(
     for (auto& op : stmt.operands_ref().value)
     {
         if (op->type == semantics::operand_type::EMPTY)
+        {
+            expr_values.push_back(nullptr);
             continue;
+        }
 
         has_operand = true;
 
diff --git a/parser_library/src/processing/instruction_sets/ca_processor.h b/parser_library/src/processing/instruction_sets/ca_processor.h
index bfad590..1c6615d 100644
--- a/parser_library/src/processing/instruction_sets/ca_processor.h
+++ b/parser_library/src/processing/instruction_sets/ca_processor.h
@@ -118,7 +118,11 @@ inline void ca_processor::process_SET(const semantics::complete_statement& stmt)
         return;
 
     for (size_t i = 0; i < expr_values.size(); i++)
+    {
+        if (!expr_values[i]) // an omitted operand leaves its element unchanged
+            continue;
         set_symbol->access_set_symbol<T>()->set_value(expr_values[i]->evaluate<T>(eval_ctx), index - 1 + i);
+    }
 }
 
 template<typename T, bool global>
-- 
2.43.0


From a752efb8ac69544c337d17442409ffcffa5303f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:34 +0000
Subject: [PATCH 23/84] fix: a macro definition replaces an OPSYN synonym of
 its name

---
 parser_library/src/context/hlasm_context.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser_library/src/context/hlasm_context.cpp b/parser_library/src/context/hlasm_context.cpp
index ebac7d8..6285f6a 100644
--- a/parser_library/src/context/hlasm_context.cpp
+++ b/parser_library/src/context/hlasm_context.cpp
@@ -670,6 +670,8 @@ macro_def_ptr hlasm_context::add_macro(id_index name,
     label_storage labels,
     location definition_location)
 {
+    opcode_mnemo_.erase(name); // the definition replaces any former synonym of the name
+
     return macros_
         .insert_or_assign(name,
             std::make_shared<macro_definition>(name,
-- 
2.43.0


From d5c07781a3bedbe8fc2d6900a0ceebe5fbae98d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:48 +0000
Subject: [PATCH 24/84] fix: AGO with an operand that is no sequence symbol is
 diagnosed

---
 parser_library/src/processing/instruction_sets/ca_processor.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser_library/src/processing/instruction_sets/ca_processor.cpp b/parser_library/src/processing/instruction_sets/ca_processor.cpp
index c41493b..cfdd0f9 100644
--- a/parser_library/src/processing/instruction_sets/ca_processor.cpp
+++ b/parser_library/src/processing/instruction_sets/ca_processor.cpp
@@ -356,6 +356,7 @@ bool ca_processor::prepare_AGO(const semantics::complete_statement& stmt,
         }
         return true;
     }
+    add_diagnostic(diagnostic_op::error_E010("operand", ca_op->operand_range));
     return false;
 }
 
-- 
2.43.0


From cc8dccc4d6205e759ffb18b9e6c782ddaf7e7317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:01 +0000
Subject: [PATCH 25/84] fix: a token that the parser skips is diagnosed

---
 parser_library/src/parsing/parser_error_listener.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser_library/src/parsing/parser_error_listener.cpp b/parser_library/src/parsing/parser_error_listener.cpp
index 620a785..4fdeea0 100644
--- a/parser_library/src/parsing/parser_error_listener.cpp
+++ b/parser_library/src/parsing/parser_error_listener.cpp
@@ -122,6 +122,10 @@ void parser_error_listener_base::syntaxError(
     {
         if (e)
             std::rethrow_exception(e);
+
+        // a token was skipped or made up without an exception
+        add_parser_diagnostic(
+            range(position(line, char_pos_in_line)), diagnostic_severity::error, "S0002", "Syntax error");
     }
     catch (antlr4::NoViableAltException& excp)
     {
-- 
2.43.0


From bd720fd2298c3e57facdd32c1b46d02384f8d732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:01 +0000
Subject: [PATCH 26/84] fix: an apostrophe followed by a digit does not make an
 attribute reference

---
 parser_library/src/lexing/lexer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser_library/src/lexing/lexer.cpp b/parser_library/src/lexing/lexer.cpp
index c9ff8c5..9b1a44c 100644
--- a/parser_library/src/lexing/lexer.cpp
+++ b/parser_library/src/lexing/lexer.cpp
@@ -646,7 +646,11 @@ void lexer::lex_word()
     else
         create_token(IDENTIFIER);
 
+    // a digit cannot start the name that an attribute reference needs
+    auto after_apostrophe = input_state_->c == '\'' ? input_state_->input->LA(2) : 0;
+
     if (input_state_->c == '\'' && last_char_data_attr && !var_sym_tmp && w_len == 1
+        && (after_apostrophe < '0' || after_apostrophe > '9')
         && (unlimited_line_ || input_state_->char_position_in_line != end_))
     {
         start_token();
-- 
2.43.0


From 348c060712d97f28532641342fb1fff2b74d8e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:01 +0000
Subject: [PATCH 27/84] fix: malformed operands of a macro call were taken for
 a remark

---
 parser_library/src/parsing/grammar/operand_field_rules.g4 | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/parser_library/src/parsing/grammar/operand_field_rules.g4 b/parser_library/src/parsing/grammar/operand_field_rules.g4
index d1f9b7d..ba9818c 100644
--- a/parser_library/src/parsing/grammar/operand_field_rules.g4
+++ b/parser_library/src/parsing/grammar/operand_field_rules.g4
@@ -224,12 +224,7 @@ op_rem_body_mac returns [op_rem line, range line_range]
 		$line = std::move($op_rem_body_alt_mac.line);
 		$line_range = provider.get_range($op_rem_body_alt_mac.ctx);
 	} EOLLN EOF
-	| remark_o 
-	{
-		$line.remarks = $remark_o.value ? remark_list{*$remark_o.value} : remark_list{};
-		$line_range = provider.get_range($remark_o.ctx);
-	} EOLLN EOF
-	| {$line_range = provider.get_range(_localctx);} EOLLN EOF;
+	| SPACE* {$line_range = provider.get_range(_localctx);} EOLLN EOF;
 
 op_rem_body_alt_mac returns [op_rem line]
 	: alt_op_list_comma_mac cont_mac												
-- 
2.43.0


From a92a60aa8010e2afe9e639417cb71952b8752638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:01 +0000
Subject: [PATCH 28/84] fix: the omitted last element of a sublist was lost
 when passed through a variable symbol

---
 .../src/processing/instruction_sets/macro_processor.cpp       | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser_library/src/processing/instruction_sets/macro_processor.cpp b/parser_library/src/processing/instruction_sets/macro_processor.cpp
index 9825778..4eec589 100644
--- a/parser_library/src/processing/instruction_sets/macro_processor.cpp
+++ b/parser_library/src/processing/instruction_sets/macro_processor.cpp
@@ -123,6 +123,10 @@ context::macro_data_ptr macro_processor::string_to_macrodata(std::string data)
         }
         else if (data[begin] == ')')
         {
+            // the last element of the sublist is omitted
+            if (begin > 0 && (data[begin - 1] == ',' || data[begin - 1] == '('))
+                macro_data.top().emplace_back(std::make_unique<context::macro_param_data_dummy>());
+
             ++begin;
             nests.pop();
 
-- 
2.43.0


From 0577455e8645aec1b07554a9a5b72d28677b7d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:10 +0000
Subject: [PATCH 29/84] fix: a comma after a concatenated sublist was skipped
 twice

---
 .../src/processing/instruction_sets/macro_processor.cpp    | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parser_library/src/processing/instruction_sets/macro_processor.cpp b/parser_library/src/processing/instruction_sets/macro_processor.cpp
index 4eec589..9424abe 100644
--- a/parser_library/src/processing/instruction_sets/macro_processor.cpp
+++ b/parser_library/src/processing/instruction_sets/macro_processor.cpp
@@ -145,9 +145,14 @@ context::macro_data_ptr macro_processor::string_to_macrodata(std::string data)
                 macro_data.top().emplace_back(std::make_unique<context::macro_param_data_single>(std::move(single)));
             }
             else
+            {
                 macro_data.top().emplace_back(std::make_unique<context::macro_param_data_composite>(std::move(vec)));
 
-            nests.top() = begin + (begin != data.size() && data[begin] == ',' ? 1 : 0);
+                if (begin != data.size() && data[begin] == ',')
+                    ++begin;
+            }
+
+            nests.top() = begin;
 
             if (nests.size() == 1)
             {
-- 
2.43.0


From 142431305bff8307b2ae05afb7d1e30b9ee1f524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:47 +0000
Subject: [PATCH 30/84] fix: strings in parentheses and data definitions in
 sublists passed through a variable symbol

---
 .../instruction_sets/macro_processor.cpp      | 28 ++++++++++++++-----
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/parser_library/src/processing/instruction_sets/macro_processor.cpp b/parser_library/src/processing/instruction_sets/macro_processor.cpp
index 9424abe..1afb716 100644
--- a/parser_library/src/processing/instruction_sets/macro_processor.cpp
+++ b/parser_library/src/processing/instruction_sets/macro_processor.cpp
@@ -14,9 +14,11 @@
 
 #include "macro_processor.h"
 
+#include <cctype>
 #include <functional>
 #include <memory>
 
+#include "lexing/lexer.h"
 #include "processing/context_manager.h"
 #include "semantics/operand_impls.h"
 
@@ -41,6 +43,16 @@ bool is_data_def(char c)
     return c == 'L' || c == 'I' || c == 'S' || c == 'T' || c == 'D' || c == 'O' || c == 'N' || c == 'K';
 }
 
+// finds the end of the string that starts at 'start', an apostrophe of an attribute reference is no string
+size_t skip_string(const std::string& data, size_t start)
+{
+    if (start > 0 && is_data_def(data[start - 1]) && (start == 1 || !lexing::lexer::ord_char(data[start - 2]))
+        && !(start + 1 < data.size() && isdigit((unsigned char)data[start + 1])))
+        return start;
+
+    return data.find('\'', start + 1);
+}
+
 std::unique_ptr<context::macro_param_data_single> find_single_macro_param(const std::string& data, size_t& start)
 {
     size_t begin = start;
@@ -61,6 +73,14 @@ std::unique_ptr<context::macro_param_data_single> find_single_macro_param(const
                 if (start == data.size())
                     return nullptr;
 
+                if (data[start] == '\'')
+                {
+                    start = skip_string(data, start);
+
+                    if (start == std::string::npos)
+                        return nullptr;
+                }
+
                 if (data[start] == '(')
                     ++nest;
                 if (data[start] == ')')
@@ -70,13 +90,7 @@ std::unique_ptr<context::macro_param_data_single> find_single_macro_param(const
         }
         else if (data[start] == '\'')
         {
-            if (start > 0 && is_data_def(data[start - 1]))
-            {
-                ++start;
-                continue;
-            }
-
-            start = data.find_first_of('\'', start + 1);
+            start = skip_string(data, start);
 
             if (start == std::string::npos)
                 return nullptr;
-- 
2.43.0


From 7dc3cc9ade1a768f5246f0d5c22327833a536def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:37 +0000
Subject: [PATCH 31/84] fix: the next location counter starts at the highest
 address of the previous one

---
 .../context/ordinary_assembly/location_counter.cpp   | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/parser_library/src/context/ordinary_assembly/location_counter.cpp b/parser_library/src/context/ordinary_assembly/location_counter.cpp
index 792a08f..ee38312 100644
--- a/parser_library/src/context/ordinary_assembly/location_counter.cpp
+++ b/parser_library/src/context/ordinary_assembly/location_counter.cpp
@@ -22,9 +22,17 @@
 
 using namespace hlasm_plugin::parser_library::context;
 
-bool location_counter::has_unresolved_spaces() const { return !!org_data_.back().fist_space(); }
+bool location_counter::has_unresolved_spaces() const
+{
+    return std::any_of(org_data_.begin(), org_data_.end(), [](const auto& data) { return !!data.fist_space(); });
+}
 
-size_t location_counter::storage() const { return curr_data().storage; }
+size_t location_counter::storage() const
+{
+    return std::max_element(org_data_.begin(), org_data_.end(), [](const auto& l, const auto& r) {
+        return l.storage < r.storage;
+    })->storage;
+}
 
 location_counter::location_counter(id_index name, const section& owner, const loctr_kind kind, id_storage& ids)
     : switched_(nullptr)
-- 
2.43.0


From c3abdb1f4154aad87136e32ba56ad635b871a072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:37 +0000
Subject: [PATCH 32/84] fix: ORG without operand in a location counter with
 origins of both kinds

---
 .../context/ordinary_assembly/location_counter.cpp  | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/parser_library/src/context/ordinary_assembly/location_counter.cpp b/parser_library/src/context/ordinary_assembly/location_counter.cpp
index ee38312..4aa7565 100644
--- a/parser_library/src/context/ordinary_assembly/location_counter.cpp
+++ b/parser_library/src/context/ordinary_assembly/location_counter.cpp
@@ -149,20 +149,19 @@ std::pair<space_ptr, std::vector<address>> location_counter::set_available_value
     for (auto& entry : org_data_)
         addr_arr.emplace_back(address::base { &owner }, entry.storage, entry.spaces());
 
+    // relative to the begin of this location counter, unless some of the values are absolute in the section
     space_ptr loctr_start = nullptr;
-    if (kind == loctr_kind::NONSTARTING)
+    if (kind == loctr_kind::NONSTARTING && std::all_of(addr_arr.begin(), addr_arr.end(), [](const auto& addr) {
+            return !addr.spaces().empty() && addr.spaces().front().first->kind == space_kind::LOCTR_BEGIN;
+        }))
     {
         loctr_start = addr_arr.front().spaces().front().first;
-        assert(loctr_start->kind == space_kind::LOCTR_BEGIN);
         for (auto& addr : addr_arr)
-        {
-            if (addr.spaces().front().first->kind == space_kind::LOCTR_BEGIN)
-                addr.spaces().erase(addr.spaces().begin());
-        }
+            addr.spaces().erase(addr.spaces().begin());
     }
 
     org_data_.emplace_back(loctr_data_kind::POTENTIAL_MAX);
-    if (kind == loctr_kind::NONSTARTING)
+    if (loctr_start)
         curr_data().append_space(std::move(loctr_start));
     (void)register_space(context::no_align, space_kind::LOCTR_MAX);
 
-- 
2.43.0


From d0dfa15f5f4f09e757c9f82316f84a277e6f3802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:33 +0000
Subject: [PATCH 33/84] fix: an origin moved back by its offset operand kept no
 record of the highest address

---
 .../src/context/ordinary_assembly/location_counter.cpp       | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parser_library/src/context/ordinary_assembly/location_counter.cpp b/parser_library/src/context/ordinary_assembly/location_counter.cpp
index 4aa7565..8928d69 100644
--- a/parser_library/src/context/ordinary_assembly/location_counter.cpp
+++ b/parser_library/src/context/ordinary_assembly/location_counter.cpp
@@ -113,7 +113,7 @@ space_ptr location_counter::set_value(const address& addr, size_t boundary, int
     else
     {
         int diff = addr.offset() - curr_data().storage;
-        if (diff < 0 && curr_data().kind == loctr_data_kind::POTENTIAL_MAX)
+        if ((diff < 0 || offset < 0) && curr_data().kind == loctr_data_kind::POTENTIAL_MAX)
         {
             // when value of addr is lower than loctr's and current loctr value is at its maximum, create new loctr data
             // so that we can track new loctr value for later maximum retrieval (in method set_available_value)
@@ -121,7 +121,8 @@ space_ptr location_counter::set_value(const address& addr, size_t boundary, int
             curr_data().kind = loctr_data_kind::UNKNOWN_MAX;
         }
         curr_data().append_storage(diff);
-        check_available_value();
+        if (offset >= 0)
+            check_available_value();
         return nullptr;
     }
 }
-- 
2.43.0


From cea4ca9417079e132c6d836ff7b3f06a9511ffb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:51 +0000
Subject: [PATCH 34/84] fix: an origin to a label of another location counter
 was not diagnosed after ORG without operand

---
 .../src/context/ordinary_assembly/address.cpp          | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/parser_library/src/context/ordinary_assembly/address.cpp b/parser_library/src/context/ordinary_assembly/address.cpp
index 12f60c5..20a417c 100644
--- a/parser_library/src/context/ordinary_assembly/address.cpp
+++ b/parser_library/src/context/ordinary_assembly/address.cpp
@@ -306,7 +306,15 @@ bool address::in_same_loctr(const address& addr) const
     if (this_has_loctr_begin && addr_has_loctr_begin)
         return addr.spaces_[0].first == spaces_[0].first;
     else if (!this_has_loctr_begin && !addr_has_loctr_begin)
-        return true;
+    {
+        // an address without spaces lies in the first location counter of the section
+        auto nonstarting_loctr = [](const std::vector<space_entry>& spaces) -> const location_counter* {
+            if (spaces.empty() || spaces.front().first->owner.kind == loctr_kind::STARTING)
+                return nullptr;
+            return &spaces.front().first->owner;
+        };
+        return nonstarting_loctr(spaces_) == nonstarting_loctr(addr.spaces_);
+    }
     else
     {
         if (addr.spaces_.size() && spaces_.size())
-- 
2.43.0


From 561829b15624175cf72fdf35a4d976a232f2debc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:53 +0000
Subject: [PATCH 35/84] fix: the search for dependency cycles did not end when
 another cycle existed

---
 .../context/ordinary_assembly/symbol_dependency_tables.cpp  | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parser_library/src/context/ordinary_assembly/symbol_dependency_tables.cpp b/parser_library/src/context/ordinary_assembly/symbol_dependency_tables.cpp
index 2de05fc..12140de 100644
--- a/parser_library/src/context/ordinary_assembly/symbol_dependency_tables.cpp
+++ b/parser_library/src/context/ordinary_assembly/symbol_dependency_tables.cpp
@@ -19,6 +19,7 @@
 #include <queue>
 #include <stack>
 #include <stdexcept>
+#include <unordered_set>
 
 #include "ordinary_assembly_context.h"
 #include "processing/instruction_sets/low_language_processor.h"
@@ -35,11 +36,16 @@ bool symbol_dependency_tables::check_cycle(dependant target, std::vector<dependa
         return false;
     }
 
+    std::unordered_set<dependant> visited; // there may be another cycle, which does not contain the target
+
     while (!dependencies.empty())
     {
         auto top_dep = std::move(dependencies.back());
         dependencies.pop_back();
 
+        if (!visited.insert(top_dep).second)
+            continue;
+
         const resolvable* dep_src = nullptr;
 
         if (auto it = dependencies_.find(top_dep); it != dependencies_.end())
-- 
2.43.0


From 28459106f7e7f983597d1319f015e30ef903b7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:50 +0000
Subject: [PATCH 36/84] fix: relocatable duplication factors and modifiers are
 diagnosed

---
 parser_library/src/diagnostic.cpp              | 8 ++++++++
 parser_library/src/diagnostic.h                | 2 ++
 parser_library/src/semantics/operand_impls.cpp | 7 +++++++
 3 files changed, 17 insertions(+)

diff --git a/parser_library/src/diagnostic.cpp b/parser_library/src/diagnostic.cpp
index 55c5c4f..af7a4b2 100644
--- a/parser_library/src/diagnostic.cpp
+++ b/parser_library/src/diagnostic.cpp
@@ -1506,6 +1506,14 @@ diagnostic_op diagnostic_op::error_D030(const range& range, const std::string& t
     return diagnostic_op(diagnostic_severity::error, "D030", "Only single symbol expected with type " + type, range);
 }
 
+diagnostic_op diagnostic_op::error_D031(const range& range)
+{
+    return diagnostic_op(diagnostic_severity::error,
+        "D031",
+        "Duplication factor and modifiers must be absolute expressions",
+        range);
+}
+
 
 diagnostic_op diagnostic_op::error_M135(const std::string& instr_name, long long from, long long to, const range& range)
 {
diff --git a/parser_library/src/diagnostic.h b/parser_library/src/diagnostic.h
index ddafc4b..10cbcec 100644
--- a/parser_library/src/diagnostic.h
+++ b/parser_library/src/diagnostic.h
@@ -445,6 +445,8 @@ struct diagnostic_op
     static diagnostic_op error_D029(const range& range);
     static diagnostic_op error_D030(const range& range, const std::string& type);
 
+    static diagnostic_op error_D031(const range& range);
+
     static diagnostic_op error_M102(const std::string& instr_name, const range& range);
 
     static diagnostic_op error_M103(const std::string& instr_name, const range& range);
diff --git a/parser_library/src/semantics/operand_impls.cpp b/parser_library/src/semantics/operand_impls.cpp
index 0916b24..ddaa9f0 100644
--- a/parser_library/src/semantics/operand_impls.cpp
+++ b/parser_library/src/semantics/operand_impls.cpp
@@ -555,6 +555,13 @@ std::unique_ptr<checking::operand> data_def_operand::get_operand_value(expressio
     op->scale = value->evaluate_scale(info);
     op->exponent = value->evaluate_exponent(info);
 
+    for (const auto& expr : { value->dupl_factor.get(), value->scale.get(), value->exponent.get() })
+    {
+        if (expr && !expr->get_dependencies(info).contains_dependencies()
+            && expr->evaluate(info).value_kind() != context::symbol_value_kind::ABS)
+            add_diagnostic(diagnostic_op::error_D031(expr->get_range()));
+    }
+
     op->nominal_value = value->evaluate_nominal_value(info);
     return op;
 }
-- 
2.43.0


From fc37741efb488472f288877eaa1e2b86864a8754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:35 +0000
Subject: [PATCH 37/84] fix: signs and counts in arithmetic with relocatable
 values

---
 .../src/context/ordinary_assembly/address.cpp    | 16 +++++++++-------
 .../src/context/ordinary_assembly/symbol.cpp     |  2 +-
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/parser_library/src/context/ordinary_assembly/address.cpp b/parser_library/src/context/ordinary_assembly/address.cpp
index 20a417c..1dd8585 100644
--- a/parser_library/src/context/ordinary_assembly/address.cpp
+++ b/parser_library/src/context/ordinary_assembly/address.cpp
@@ -128,7 +128,7 @@ int get_space_offset(space_ptr sp)
     {
         offset += sp->resolved_length;
         for (const auto& s : sp->resolved_ptrs)
-            offset += get_space_offset(s.first);
+            offset += s.second * get_space_offset(s.first);
     }
     return offset;
 }
@@ -137,7 +137,7 @@ int address::offset() const
 {
     int offs = offset_;
     for (const auto& s : spaces_)
-        offs += get_space_offset(s.first);
+        offs += s.second * get_space_offset(s.first);
     return offs;
 }
 
@@ -158,18 +158,20 @@ void insert(const address::space_entry& sp,
 
 int get_unresolved_spaces(const std::vector<address::space_entry>& spaces,
     std::unordered_map<space_ptr, size_t>& normalized_map,
-    std::vector<address::space_entry>& normalized_spaces)
+    std::vector<address::space_entry>& normalized_spaces,
+    int multiplier = 1)
 {
     int offset = 0;
     for (const auto& sp : spaces)
     {
         if (sp.first->resolved())
         {
-            offset += sp.first->resolved_length;
-            offset += get_unresolved_spaces(sp.first->resolved_ptrs, normalized_map, normalized_spaces);
+            offset += multiplier * sp.second * sp.first->resolved_length;
+            offset += get_unresolved_spaces(
+                sp.first->resolved_ptrs, normalized_map, normalized_spaces, multiplier * sp.second);
         }
         else
-            insert(sp, normalized_map, normalized_spaces);
+            insert({ sp.first, multiplier * sp.second }, normalized_map, normalized_spaces);
     }
 
     return offset;
@@ -241,7 +243,7 @@ std::vector<T> merge_entries(const std::vector<T>& lhs, const std::vector<T>& rh
             if (operation == op::ADD)
                 count = (*it)->second + entry.second;
             else
-                count = (*it)->second - entry.second;
+                count = entry.second - (*it)->second;
 
             if (count != 0)
                 res.emplace_back(entry.first, count);
diff --git a/parser_library/src/context/ordinary_assembly/symbol.cpp b/parser_library/src/context/ordinary_assembly/symbol.cpp
index 79bc33f..aaf236c 100644
--- a/parser_library/src/context/ordinary_assembly/symbol.cpp
+++ b/parser_library/src/context/ordinary_assembly/symbol.cpp
@@ -72,7 +72,7 @@ symbol_value symbol_value::operator-(const symbol_value& value) const
         if (value.value_kind() == symbol_value_kind::ABS)
             return get_abs() - value.get_abs();
         else
-            return value.get_reloc() - get_abs();
+            return -value.get_reloc() + get_abs();
     }
     else if (value_kind() == symbol_value_kind::RELOC)
     {
-- 
2.43.0


From ac0cde16096ad7f4025499bce06119a6d0315379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:45 +0000
Subject: [PATCH 38/84] fix: a product of a relocatable value in EQU is
 diagnosed

---
 .../src/processing/instruction_sets/asm_processor.cpp        | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser_library/src/processing/instruction_sets/asm_processor.cpp b/parser_library/src/processing/instruction_sets/asm_processor.cpp
index 60714b0..ce77fad 100644
--- a/parser_library/src/processing/instruction_sets/asm_processor.cpp
+++ b/parser_library/src/processing/instruction_sets/asm_processor.cpp
@@ -149,6 +149,11 @@ void asm_processor::process_EQU(rebuilt_statement stmt)
             {
                 create_symbol(
                     stmt.stmt_range_ref(), symbol_name, expr_op->expression->resolve(hlasm_ctx.ord_ctx), attrs);
+
+                expr_op->collect_diags();
+                for (auto& diag : expr_op->diags())
+                    add_diagnostic(std::move(diag));
+                expr_op->diags().clear();
             }
             else
             {
-- 
2.43.0


From 9ac7727b44524ae91d99ae3e491ce1c1bb5915f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:45 +0000
Subject: [PATCH 39/84] fix: length attribute of a label that resolves its own
 length; duplicate labels left the first one alone

---
 .../processing/instruction_sets/asm_processor.cpp  | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/parser_library/src/processing/instruction_sets/asm_processor.cpp b/parser_library/src/processing/instruction_sets/asm_processor.cpp
index ce77fad..b6f960c 100644
--- a/parser_library/src/processing/instruction_sets/asm_processor.cpp
+++ b/parser_library/src/processing/instruction_sets/asm_processor.cpp
@@ -210,6 +210,7 @@ void asm_processor::process_data_instruction(rebuilt_statement stmt)
 
     // process label
     auto label = find_label_symbol(stmt);
+    bool label_created = false;
 
     if (label != context::id_storage::empty_id && stmt.operands_ref().value.size()
         && stmt.operands_ref().value.front()->type != semantics::operand_type::EMPTY)
@@ -237,6 +238,7 @@ void asm_processor::process_data_instruction(rebuilt_statement stmt)
             {
                 scale = value.get_scale_attribute();
             }
+            label_created = true;
             create_symbol(stmt.stmt_range_ref(),
                 label,
                 std::move(adr),
@@ -276,11 +278,19 @@ void asm_processor::process_data_instruction(rebuilt_statement stmt)
 
             auto data_op = adder.source_stmt->impl()->operands_ref().value.front()->access_data_def();
 
-            if (data_op->value->length
+            // the definition of the label could have resolved what the length depends on
+            if (auto* symbol = hlasm_ctx.ord_ctx.get_symbol(label);
+                label_created && !symbol->attributes().is_defined(context::data_attr_kind::L)
+                && !data_op->value->length->get_dependencies(hlasm_ctx.ord_ctx).contains_dependencies())
+            {
+                auto tmp = data_op->get_operand_value(hlasm_ctx.ord_ctx);
+                symbol->set_length(dynamic_cast<checking::data_definition_operand&>(*tmp).get_length_attribute());
+            }
+            else if (label_created && data_op->value->length
                 && data_op->value->length->get_dependencies(hlasm_ctx.ord_ctx).contains_dependencies())
                 cycle_ok = adder.add_dependency(label, context::data_attr_kind::L, data_op->value->length.get());
 
-            if (data_op->value->scale
+            if (label_created && data_op->value->scale
                 && data_op->value->scale->get_dependencies(hlasm_ctx.ord_ctx).contains_dependencies())
                 cycle_ok &= adder.add_dependency(label, context::data_attr_kind::S, data_op->value->scale.get());
         }
-- 
2.43.0


From 8ea938748fcbdcf35898eac648b837fdbdc17a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:45 +0000
Subject: [PATCH 40/84] fix: EQU of an address behind storage of unknown length
 lost its displacement, and cycles through such storage were not diagnosed

---
 .../dependency_collector.cpp                  |  5 ++
 .../ordinary_assembly/dependency_collector.h  |  2 +
 .../ordinary_assembly_context.cpp             |  6 +-
 .../symbol_dependency_tables.cpp              | 58 +++++++++++--------
 .../symbol_dependency_tables.h                |  4 ++
 .../instruction_sets/asm_processor.cpp        |  5 +-
 .../ordinary_processor.cpp                    |  3 +
 7 files changed, 55 insertions(+), 28 deletions(-)

diff --git a/parser_library/src/context/ordinary_assembly/dependency_collector.cpp b/parser_library/src/context/ordinary_assembly/dependency_collector.cpp
index 70ec0cd..460572e 100644
--- a/parser_library/src/context/ordinary_assembly/dependency_collector.cpp
+++ b/parser_library/src/context/ordinary_assembly/dependency_collector.cpp
@@ -60,6 +60,11 @@ bool dependency_collector::is_address() const
     return undefined_symbols.empty() && unresolved_address && !unresolved_address.value().bases().empty();
 }
 
+bool dependency_collector::is_only_address() const
+{
+    return is_address() && undefined_attr_refs.empty() && unresolved_spaces.empty();
+}
+
 bool dependency_collector::contains_dependencies() const
 {
     return !undefined_symbols.empty() || !undefined_attr_refs.empty() || !unresolved_spaces.empty()
diff --git a/parser_library/src/context/ordinary_assembly/dependency_collector.h b/parser_library/src/context/ordinary_assembly/dependency_collector.h
index f899f09..78f8ce8 100644
--- a/parser_library/src/context/ordinary_assembly/dependency_collector.h
+++ b/parser_library/src/context/ordinary_assembly/dependency_collector.h
@@ -50,6 +50,8 @@ struct dependency_collector
     dependency_collector& operator/(const dependency_collector& holder);
 
     bool is_address() const;
+    // an address and nothing else that is not known
+    bool is_only_address() const;
 
     bool contains_dependencies() const;
 
diff --git a/parser_library/src/context/ordinary_assembly/ordinary_assembly_context.cpp b/parser_library/src/context/ordinary_assembly/ordinary_assembly_context.cpp
index db9ee7e..12ea899 100644
--- a/parser_library/src/context/ordinary_assembly/ordinary_assembly_context.cpp
+++ b/parser_library/src/context/ordinary_assembly/ordinary_assembly_context.cpp
@@ -46,12 +46,12 @@ bool ordinary_assembly_context::create_symbol(
 
     bool ok = true;
 
-    if (value.value_kind() == symbol_value_kind::RELOC)
-        ok = symbol_dependencies.check_loctr_cycle();
-
     if (value.value_kind() != symbol_value_kind::UNDEF)
         symbol_dependencies.add_defined();
 
+    if (value.value_kind() == symbol_value_kind::RELOC)
+        ok = symbol_dependencies.check_loctr_cycle();
+
     return ok;
 }
 
diff --git a/parser_library/src/context/ordinary_assembly/symbol_dependency_tables.cpp b/parser_library/src/context/ordinary_assembly/symbol_dependency_tables.cpp
index 12140de..c344e80 100644
--- a/parser_library/src/context/ordinary_assembly/symbol_dependency_tables.cpp
+++ b/parser_library/src/context/ordinary_assembly/symbol_dependency_tables.cpp
@@ -29,13 +29,15 @@ namespace hlasm_plugin::parser_library::context {
 
 bool symbol_dependency_tables::check_cycle(dependant target, std::vector<dependant> dependencies)
 {
-    if (std::find(dependencies.begin(), dependencies.end(), target)
-        != dependencies.end()) // dependencies contain target itself
-    {
-        resolve_dependant_default(target);
-        return false;
-    }
+    if (!has_cycle(target, std::move(dependencies)))
+        return true;
 
+    resolve_dependant_default(std::move(target));
+    return false;
+}
+
+bool symbol_dependency_tables::has_cycle(const dependant& target, std::vector<dependant> dependencies)
+{
     std::unordered_set<dependant> visited; // there may be another cycle, which does not contain the target
 
     while (!dependencies.empty())
@@ -43,28 +45,18 @@ bool symbol_dependency_tables::check_cycle(dependant target, std::vector<dependa
         auto top_dep = std::move(dependencies.back());
         dependencies.pop_back();
 
-        if (!visited.insert(top_dep).second)
-            continue;
-
-        const resolvable* dep_src = nullptr;
+        if (top_dep == target)
+            return true;
 
-        if (auto it = dependencies_.find(top_dep); it != dependencies_.end())
-            dep_src = it->second;
-        else
+        auto it = dependencies_.find(top_dep);
+        if (it == dependencies_.end() || !visited.insert(top_dep).second)
             continue;
 
-        for (auto&& dep : extract_dependencies(dep_src))
-        {
-            if (dep == target)
-            {
-                resolve_dependant_default(target);
-                return false;
-            }
+        for (auto&& dep : extract_dependencies(it->second))
             dependencies.push_back(std::move(dep));
-        }
     }
 
-    return true;
+    return false;
 }
 
 struct resolve_dependant_visitor
@@ -157,7 +149,9 @@ void symbol_dependency_tables::resolve(loctr_dependency_resolver* resolver)
             if (resolver == nullptr && std::holds_alternative<space_ptr>(target))
                 continue;
 
-            if (extract_dependencies(dep_src).empty()) // target no longer dependent on anything
+            // target no longer dependent on anything or symbol that is an address with a distance unknown so far
+            if (extract_dependencies(dep_src).empty()
+                || (std::holds_alternative<id_index>(target) && dep_src->get_dependencies(sym_ctx_).is_only_address()))
             {
                 to_delete.push_back(target);
 
@@ -446,6 +440,24 @@ bool symbol_dependency_tables::check_loctr_cycle()
     return cycled.empty();
 }
 
+std::vector<const postponed_statement*> symbol_dependency_tables::cyclic_statements()
+{
+    std::vector<const postponed_statement*> res;
+
+    for (const auto& [target, dep_src] : dependencies_)
+    {
+        auto it = dependency_source_stmts_.find(target);
+        if (it == dependency_source_stmts_.end())
+            continue;
+
+        const auto* stmt = it->second.stmt_ref->get();
+        if (std::find(res.begin(), res.end(), stmt) == res.end() && has_cycle(target, extract_dependencies(dep_src)))
+            res.push_back(stmt);
+    }
+
+    return res;
+}
+
 std::vector<post_stmt_ptr> symbol_dependency_tables::collect_postponed()
 {
     std::vector<post_stmt_ptr> res;
diff --git a/parser_library/src/context/ordinary_assembly/symbol_dependency_tables.h b/parser_library/src/context/ordinary_assembly/symbol_dependency_tables.h
index 66e1f7a..6014838 100644
--- a/parser_library/src/context/ordinary_assembly/symbol_dependency_tables.h
+++ b/parser_library/src/context/ordinary_assembly/symbol_dependency_tables.h
@@ -58,6 +58,7 @@ class symbol_dependency_tables
     ordinary_assembly_context& sym_ctx_;
 
     bool check_cycle(dependant target, std::vector<dependant> dependencies);
+    bool has_cycle(const dependant& target, std::vector<dependant> dependencies);
 
     void resolve_dependant(dependant target, const resolvable* dep_src, loctr_dependency_resolver* resolver);
     void resolve_dependant_default(dependant target);
@@ -104,6 +105,9 @@ public:
     // checks for cycle in location counter value
     bool check_loctr_cycle();
 
+    // statements with an unresolved dependency on themselves
+    std::vector<const postponed_statement*> cyclic_statements();
+
     // collect all postponed statements either if they still contain dependent objects
     std::vector<post_stmt_ptr> collect_postponed();
 
diff --git a/parser_library/src/processing/instruction_sets/asm_processor.cpp b/parser_library/src/processing/instruction_sets/asm_processor.cpp
index b6f960c..c5e778d 100644
--- a/parser_library/src/processing/instruction_sets/asm_processor.cpp
+++ b/parser_library/src/processing/instruction_sets/asm_processor.cpp
@@ -157,7 +157,7 @@ void asm_processor::process_EQU(rebuilt_statement stmt)
             }
             else
             {
-                if (!holder.is_address())
+                if (!holder.is_only_address())
                 {
                     bool cycle_ok = create_symbol(stmt.stmt_range_ref(), symbol_name, context::symbol_value(), attrs);
 
@@ -171,7 +171,8 @@ void asm_processor::process_EQU(rebuilt_statement stmt)
                     }
                 }
                 else
-                    create_symbol(stmt.stmt_range_ref(), symbol_name, *holder.unresolved_address, attrs);
+                    create_symbol(
+                        stmt.stmt_range_ref(), symbol_name, expr_op->expression->resolve(hlasm_ctx.ord_ctx), attrs);
             }
         }
     }
diff --git a/parser_library/src/processing/statement_processors/ordinary_processor.cpp b/parser_library/src/processing/statement_processors/ordinary_processor.cpp
index c548fb4..48f0d3a 100644
--- a/parser_library/src/processing/statement_processors/ordinary_processor.cpp
+++ b/parser_library/src/processing/statement_processors/ordinary_processor.cpp
@@ -109,6 +109,9 @@ void ordinary_processor::end_processing()
 
     hlasm_ctx.ord_ctx.finish_module_layout(&asm_proc_);
 
+    for (const auto* stmt : hlasm_ctx.ord_ctx.symbol_dependencies.cyclic_statements())
+        diagnostic_collector(this, stmt->location_stack())(diagnostic_op::error_E033(stmt->impl()->stmt_range_ref()));
+
     hlasm_ctx.ord_ctx.symbol_dependencies.resolve_all_as_default();
 
     check_postponed_statements(hlasm_ctx.ord_ctx.symbol_dependencies.collect_postponed());
-- 
2.43.0


From c795201e870e9e4f79c4ad3e4df71116f4103a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:30 +0000
Subject: [PATCH 41/84] fix: length attribute of X and B constants ignores
 embedded blanks

---
 .../src/checking/data_definition/data_def_types_string.cpp  | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/parser_library/src/checking/data_definition/data_def_types_string.cpp b/parser_library/src/checking/data_definition/data_def_types_string.cpp
index 315b45c..44147b3 100644
--- a/parser_library/src/checking/data_definition/data_def_types_string.cpp
+++ b/parser_library/src/checking/data_definition/data_def_types_string.cpp
@@ -43,11 +43,7 @@ uint64_t get_X_B_length(const std::string& s, uint64_t frac)
 
 uint32_t get_X_B_length_attr(const std::string& s, uint64_t frac)
 {
-    size_t first_value_len = s.find(',');
-    if (first_value_len == std::string::npos)
-        first_value_len = s.size();
-    first_value_len = (first_value_len + frac - 1) / frac;
-    return (uint32_t)first_value_len;
+    return (uint32_t)get_X_B_length(s.substr(0, s.find(',')), frac);
 }
 
 // Checks comma separated values. is_valid_digit specifies whether the char is valid character of value.
-- 
2.43.0


From 53bd49deffe4595553658df95fff1387967d09af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:30 +0000
Subject: [PATCH 42/84] fix: P and Z operands with an expression list as
 nominal value threw an exception

---
 .../checking/data_definition/data_def_types_fixed_point.cpp   | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser_library/src/checking/data_definition/data_def_types_fixed_point.cpp b/parser_library/src/checking/data_definition/data_def_types_fixed_point.cpp
index de7bb54..ea4c94b 100644
--- a/parser_library/src/checking/data_definition/data_def_types_fixed_point.cpp
+++ b/parser_library/src/checking/data_definition/data_def_types_fixed_point.cpp
@@ -222,6 +222,8 @@ uint32_t hlasm_plugin::parser_library::checking::data_def_type_P::get_nominal_le
 {
     if (!op.present)
         return 1;
+    if (!std::holds_alternative<std::string>(op.value))
+        return 0;
 
     const std::string& s = std::get<std::string>(op.value);
 
@@ -264,6 +266,8 @@ uint32_t data_def_type_Z::get_nominal_length_attribute(const nominal_value_t& op
 {
     if (!op.present)
         return 1;
+    if (!std::holds_alternative<std::string>(op.value))
+        return 0;
 
     uint32_t first_value_len = 0;
     for (char c : std::get<std::string>(op.value))
-- 
2.43.0


From dfc0d5819246ba5a45a782c47fbf8452356cacb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:30 +0000
Subject: [PATCH 43/84] fix: check the length modifier of A and Y operands
 without nominal value

---
 .../data_def_types_address.cpp                | 27 +++++++++----------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/parser_library/src/checking/data_definition/data_def_types_address.cpp b/parser_library/src/checking/data_definition/data_def_types_address.cpp
index 95b59e5..02099cb 100644
--- a/parser_library/src/checking/data_definition/data_def_types_address.cpp
+++ b/parser_library/src/checking/data_definition/data_def_types_address.cpp
@@ -36,6 +36,7 @@ data_def_type_A::data_def_type_A()
 bool check_A_AD_Y_length(const std::string& type,
     const data_definition_operand& op,
     const diagnostic_collector& add_diagnostic,
+    bool check_nominal,
     int min_byte_abs,
     int max_byte_abs,
     int min_byte_sym,
@@ -47,13 +48,17 @@ bool check_A_AD_Y_length(const std::string& type,
     if (!op.length.present)
         return true;
 
-    for (auto e : std::get<nominal_value_expressions>(op.nominal_value.value))
+    // without (valid) nominal value, the limits of absolute expressions apply
+    if (check_nominal)
     {
-        const data_def_expr& expr = std::get<data_def_expr>(e);
-        if (!expr.ignored && expr.ex_kind != expr_type::ABS)
+        for (auto e : std::get<nominal_value_expressions>(op.nominal_value.value))
         {
-            all_absolute = false;
-            break;
+            const data_def_expr& expr = std::get<data_def_expr>(e);
+            if (!expr.ignored && expr.ex_kind != expr_type::ABS)
+            {
+                all_absolute = false;
+                break;
+            }
         }
     }
     // For absolute expressions, it is possible to specify bit or byte length modifier with bounds specified in
@@ -94,9 +99,7 @@ bool check_A_AD_Y_length(const std::string& type,
 bool data_def_type_A::check(
     const data_definition_operand& op, const diagnostic_collector& add_diagnostic, bool check_nominal) const
 {
-    if (!check_nominal)
-        return true;
-    return check_A_AD_Y_length("A", op, add_diagnostic, 1, 8, 2, 4, 1, 128);
+    return check_A_AD_Y_length("A", op, add_diagnostic, check_nominal, 1, 8, 2, 4, 1, 128);
 }
 
 data_def_type_AD::data_def_type_AD()
@@ -106,9 +109,7 @@ data_def_type_AD::data_def_type_AD()
 bool data_def_type_AD::check(
     const data_definition_operand& op, const diagnostic_collector& add_diagnostic, bool check_nominal) const
 {
-    if (!check_nominal)
-        return true;
-    return check_A_AD_Y_length("AD", op, add_diagnostic, 1, 8, 2, 8, 1, 128);
+    return check_A_AD_Y_length("AD", op, add_diagnostic, check_nominal, 1, 8, 2, 8, 1, 128);
 }
 
 data_def_type_Y::data_def_type_Y()
@@ -118,9 +119,7 @@ data_def_type_Y::data_def_type_Y()
 bool data_def_type_Y::check(
     const data_definition_operand& op, const diagnostic_collector& add_diagnostic, bool check_nominal) const
 {
-    if (!check_nominal)
-        return true;
-    return check_A_AD_Y_length("Y", op, add_diagnostic, 1, 2, 2, 2, 1, 16);
+    return check_A_AD_Y_length("Y", op, add_diagnostic, check_nominal, 1, 2, 2, 2, 1, 16);
 }
 
 //***************************   types S, SY   *****************************//
-- 
2.43.0


From b8632455f43d2fe81582275112b57ed30c88f8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:30 +0000
Subject: [PATCH 44/84] fix: exponent modifier right after the type taken for a
 type extension

---
 parser_library/src/expressions/data_definition.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/parser_library/src/expressions/data_definition.cpp b/parser_library/src/expressions/data_definition.cpp
index e36a4c2..b12226e 100644
--- a/parser_library/src/expressions/data_definition.cpp
+++ b/parser_library/src/expressions/data_definition.cpp
@@ -458,8 +458,12 @@ void data_definition::parser::parse_duplication_factor()
     }
 }
 
-bool is_type_extension(char ch)
+bool is_type_extension(char type, char ch)
 {
+    // E is an extension of type C only, elsewhere it is the exponent modifier
+    if (ch == 'E' && type != 'C')
+        return false;
+
     static std::set<char> type_extensions({ 'A', 'E', 'U', 'H', 'B', 'D', 'Q', 'Y' });
     return type_extensions.find(ch) != type_extensions.end();
 }
@@ -597,7 +601,7 @@ data_definition data_definition::parser::parse()
     if (p_ >= format_.size())
         return std::move(result_);
 
-    if (is_type_extension(format_[p_]))
+    if (is_type_extension(result_.type, format_[p_]))
     {
         result_.extension = format_[p_];
         result_.extension_range = { pos_, { pos_.line, pos_.column + 1 } };
-- 
2.43.0


From 3ee277b8ee44a4aa1fa0a42545e5f5e7deaf1c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:31 +0000
Subject: [PATCH 45/84] fix: implicit scale and integer attributes of data
 definitions were undefined

---
 .../src/processing/instruction_sets/asm_processor.cpp        | 4 ++--
 .../processing/statement_processors/lookahead_processor.cpp  | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/parser_library/src/processing/instruction_sets/asm_processor.cpp b/parser_library/src/processing/instruction_sets/asm_processor.cpp
index c5e778d..b12409a 100644
--- a/parser_library/src/processing/instruction_sets/asm_processor.cpp
+++ b/parser_library/src/processing/instruction_sets/asm_processor.cpp
@@ -234,8 +234,8 @@ void asm_processor::process_data_instruction(rebuilt_statement stmt)
             {
                 len = value.get_length_attribute();
             }
-            if (data_op->value->scale
-                && !data_op->value->scale->get_dependencies(hlasm_ctx.ord_ctx).contains_dependencies())
+            if (!data_op->value->scale
+                || !data_op->value->scale->get_dependencies(hlasm_ctx.ord_ctx).contains_dependencies())
             {
                 scale = value.get_scale_attribute();
             }
diff --git a/parser_library/src/processing/statement_processors/lookahead_processor.cpp b/parser_library/src/processing/statement_processors/lookahead_processor.cpp
index f1950dc..29465a7 100644
--- a/parser_library/src/processing/statement_processors/lookahead_processor.cpp
+++ b/parser_library/src/processing/statement_processors/lookahead_processor.cpp
@@ -228,12 +228,13 @@ void lookahead_processor::assign_data_def_attributes(context::id_index symbol_na
     {
         len = value.get_length_attribute();
     }
-    if (data_op->value->scale && !data_op->value->scale->get_dependencies(hlasm_ctx.ord_ctx).contains_dependencies())
+    if (!data_op->value->scale || !data_op->value->scale->get_dependencies(hlasm_ctx.ord_ctx).contains_dependencies())
     {
         scale = value.get_scale_attribute();
     }
 
-    register_attr_ref(symbol_name, context::symbol_attributes(context::symbol_origin::DAT, type, len, scale));
+    register_attr_ref(symbol_name,
+        context::symbol_attributes(context::symbol_origin::DAT, type, len, scale, value.get_integer_attribute()));
 }
 
 void lookahead_processor::assign_section_attributes(context::id_index symbol_name, const resolved_statement&)
-- 
2.43.0


From 4fbbc1ebf2a14ed46215f1dc8023bc5163a580fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:31 +0000
Subject: [PATCH 46/84] fix: duplication factor of a V-type operand defined
 later

---
 .../src/processing/instruction_sets/asm_processor.cpp           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser_library/src/processing/instruction_sets/asm_processor.cpp b/parser_library/src/processing/instruction_sets/asm_processor.cpp
index b12409a..3b1ef8d 100644
--- a/parser_library/src/processing/instruction_sets/asm_processor.cpp
+++ b/parser_library/src/processing/instruction_sets/asm_processor.cpp
@@ -201,7 +201,7 @@ void asm_processor::process_data_instruction(rebuilt_statement stmt)
 
         data_op->value->assign_location_counter(adr);
 
-        has_dependencies |= data_op->value->type != 'V' && data_op->has_dependencies(hlasm_ctx.ord_ctx);
+        has_dependencies |= data_op->has_dependencies(hlasm_ctx.ord_ctx);
 
         has_length_dependencies |= data_op->get_length_dependencies(hlasm_ctx.ord_ctx).contains_dependencies();
 
-- 
2.43.0


From 62416990dbe654be810e3747fd7059cd7fd80ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:31 +0000
Subject: [PATCH 47/84] fix: align operands of DC and DS with respect to the
 section

---
 .../data_definition/data_definition_operand.h      | 12 ++++++++----
 .../processing/instruction_sets/asm_processor.cpp  | 11 ++++++++---
 .../data_def_postponed_statement.h                 | 14 ++++++++++----
 3 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/parser_library/src/checking/data_definition/data_definition_operand.h b/parser_library/src/checking/data_definition/data_definition_operand.h
index da6ebcb..4e39423 100644
--- a/parser_library/src/checking/data_definition/data_definition_operand.h
+++ b/parser_library/src/checking/data_definition/data_definition_operand.h
@@ -49,7 +49,8 @@ public:
     uint32_t get_integer_attribute() const;
 
     template<data_instr_type instr_type>
-    static uint64_t get_operands_length(const std::vector<const data_definition_operand*>& operands);
+    static uint64_t get_operands_length(
+        const std::vector<const data_definition_operand*>& operands, uint64_t start_offset = 0);
 
 
 private:
@@ -59,9 +60,12 @@ private:
 
 //************************* template functions implementation ************************
 template<data_instr_type instr_type>
-uint64_t data_definition_operand::get_operands_length(const std::vector<const data_definition_operand*>& operands)
+uint64_t data_definition_operand::get_operands_length(
+    const std::vector<const data_definition_operand*>& operands, uint64_t start_offset)
 {
-    uint64_t operands_bit_length = 0;
+    // the boundaries of the operands are relative to the section, not to the beginning of the statement
+    const uint64_t start_bits = start_offset * 8;
+    uint64_t operands_bit_length = start_bits;
 
     for (auto op : operands)
     {
@@ -85,7 +89,7 @@ uint64_t data_definition_operand::get_operands_length(const std::vector<const da
     operands_bit_length = round_up(operands_bit_length, (uint64_t)8);
 
     // returns the length in bytes
-    return operands_bit_length / 8;
+    return (operands_bit_length - start_bits) / 8;
 }
 
 template<data_instr_type instr_type>
diff --git a/parser_library/src/processing/instruction_sets/asm_processor.cpp b/parser_library/src/processing/instruction_sets/asm_processor.cpp
index 3b1ef8d..fa5276c 100644
--- a/parser_library/src/processing/instruction_sets/asm_processor.cpp
+++ b/parser_library/src/processing/instruction_sets/asm_processor.cpp
@@ -188,6 +188,9 @@ void asm_processor::process_data_instruction(rebuilt_statement stmt)
 
     context::address adr = hlasm_ctx.ord_ctx.align(al);
 
+    // the following operands are aligned with respect to where the statement starts
+    const uint64_t start_offset = adr.has_unresolved_space() ? 0 : (uint64_t)adr.offset();
+
     // dependency sources is list of all expressions in data def operand, that have some unresolved dependencies.
     bool has_dependencies = false;
     // has_length_dependencies specifies whether the length of the data instruction can be resolved right now or must be
@@ -257,7 +260,8 @@ void asm_processor::process_data_instruction(rebuilt_statement stmt)
     if (has_dependencies)
     {
         auto adder = hlasm_ctx.ord_ctx.symbol_dependencies.add_dependencies(
-            std::make_unique<data_def_postponed_statement<instr_type>>(std::move(stmt), hlasm_ctx.processing_stack()));
+            std::make_unique<data_def_postponed_statement<instr_type>>(
+                std::move(stmt), hlasm_ctx.processing_stack(), start_offset));
         if (has_length_dependencies)
         {
             auto sp = hlasm_ctx.ord_ctx.register_ordinary_space(al);
@@ -267,7 +271,7 @@ void asm_processor::process_data_instruction(rebuilt_statement stmt)
         else
             hlasm_ctx.ord_ctx.reserve_storage_area(
                 data_def_postponed_statement<instr_type>::get_operands_length(
-                    adder.source_stmt->impl()->operands_ref().value, hlasm_ctx.ord_ctx),
+                    adder.source_stmt->impl()->operands_ref().value, hlasm_ctx.ord_ctx, start_offset),
                 context::no_align);
 
         bool cycle_ok = true;
@@ -307,7 +311,8 @@ void asm_processor::process_data_instruction(rebuilt_statement stmt)
     else
     {
         hlasm_ctx.ord_ctx.reserve_storage_area(
-            data_def_postponed_statement<instr_type>::get_operands_length(stmt.operands_ref().value, hlasm_ctx.ord_ctx),
+            data_def_postponed_statement<instr_type>::get_operands_length(
+                stmt.operands_ref().value, hlasm_ctx.ord_ctx, start_offset),
             context::no_align);
         check(stmt, hlasm_ctx, checker_, *this);
     }
diff --git a/parser_library/src/processing/instruction_sets/data_def_postponed_statement.h b/parser_library/src/processing/instruction_sets/data_def_postponed_statement.h
index 7bebc45..0742311 100644
--- a/parser_library/src/processing/instruction_sets/data_def_postponed_statement.h
+++ b/parser_library/src/processing/instruction_sets/data_def_postponed_statement.h
@@ -25,8 +25,10 @@ namespace hlasm_plugin::parser_library::processing {
 template<checking::data_instr_type instr_type>
 struct data_def_postponed_statement : public postponed_statement_impl, public context::resolvable
 {
-    data_def_postponed_statement(rebuilt_statement stmt, context::processing_stack_t stmt_location_stack)
+    data_def_postponed_statement(
+        rebuilt_statement stmt, context::processing_stack_t stmt_location_stack, uint64_t start_offset)
         : postponed_statement_impl(std::move(stmt), std::move(stmt_location_stack))
+        , start_offset_(start_offset)
     {}
 
 
@@ -43,7 +45,8 @@ struct data_def_postponed_statement : public postponed_statement_impl, public co
         return conjunction;
     }
 
-    static int32_t get_operands_length(const semantics::operand_list& operands, context::dependency_solver& solver)
+    static int32_t get_operands_length(
+        const semantics::operand_list& operands, context::dependency_solver& solver, uint64_t start_offset = 0)
     {
         std::vector<checking::check_op_ptr> checking_ops;
         std::vector<const checking::data_definition_operand*> get_len_ops;
@@ -56,7 +59,7 @@ struct data_def_postponed_statement : public postponed_statement_impl, public co
             checking_ops.push_back(std::move(o));
             get_len_ops.push_back(dd_op);
         }
-        uint64_t len = checking::data_definition_operand::get_operands_length<instr_type>(get_len_ops);
+        uint64_t len = checking::data_definition_operand::get_operands_length<instr_type>(get_len_ops, start_offset);
         if (len > INT32_MAX)
             return 0;
         else
@@ -65,8 +68,11 @@ struct data_def_postponed_statement : public postponed_statement_impl, public co
 
     context::symbol_value resolve(context::dependency_solver& solver) const override
     {
-        return get_operands_length(operands_ref().value, solver);
+        return get_operands_length(operands_ref().value, solver, start_offset_);
     }
+
+private:
+    uint64_t start_offset_;
 };
 
 } // namespace hlasm_plugin::parser_library::processing
-- 
2.43.0


From 3bbda205740b590e259f7c3814ed7e336695173e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:03 +0000
Subject: [PATCH 48/84] fix: operand forms and sizes of 13 machine instructions

BASSM is a two byte RR instruction, LDEB, LXDB and LXEB take a storage operand, CLT and
CLGT have no index, EXRL, LHRL and LGHRL are relative to the instruction, CLIY and MVIY
have long displacements, STFLE and XC do not.
---
 parser_library/src/context/instruction.cpp | 26 +++++++++++-----------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/parser_library/src/context/instruction.cpp b/parser_library/src/context/instruction.cpp
index 2280b1d..517c0bd 100644
--- a/parser_library/src/context/instruction.cpp
+++ b/parser_library/src/context/instruction.cpp
@@ -315,7 +315,7 @@ hlasm_plugin::parser_library::context::instruction::get_machine_instructions()
     add_machine_instr(result, "BAL", mach_format::RX_a, { reg_4_U, dxb_12_4x4_U }, 519);
     add_machine_instr(result, "BASR", mach_format::RR, { reg_4_U, reg_4_U }, 520);
     add_machine_instr(result, "BAS", mach_format::RX_a, { reg_4_U, dxb_12_4x4_U }, 520);
-    add_machine_instr(result, "BASSM", mach_format::RX_a, { reg_4_U, reg_4_U }, 520);
+    add_machine_instr(result, "BASSM", mach_format::RR, { reg_4_U, reg_4_U }, 520);
     add_machine_instr(result, "BSM", mach_format::RR, { reg_4_U, reg_4_U }, 522);
     add_machine_instr(result, "BIC", mach_format::RXY_b, { mask_4_U, dxb_20_4x4_S }, 523);
     add_machine_instr(result, "BCR", mach_format::RR, { mask_4_U, reg_4_U }, 524);
@@ -451,7 +451,7 @@ hlasm_plugin::parser_library::context::instruction::get_machine_instructions()
     add_machine_instr(result, "CLFI", mach_format::RIL_a, { reg_4_U, imm_32_S }, 636);
     add_machine_instr(result, "CLGFI", mach_format::RIL_a, { reg_4_U, imm_32_S }, 636);
     add_machine_instr(result, "CLI", mach_format::SI, { db_12_4_U, imm_8_U }, 636);
-    add_machine_instr(result, "CLIY", mach_format::SIY, { db_12_4_U, imm_8_U }, 636);
+    add_machine_instr(result, "CLIY", mach_format::SIY, { db_20_4_S, imm_8_U }, 636);
     add_machine_instr(result, "CLFHSI", mach_format::SIL, { db_12_4_U, imm_16_U }, 636);
     add_machine_instr(result, "CLGHSI", mach_format::SIL, { db_12_4_U, imm_16_U }, 636);
     add_machine_instr(result, "CLHHSI", mach_format::SIL, { db_12_4_U, imm_16_U }, 636);
@@ -470,8 +470,8 @@ hlasm_plugin::parser_library::context::instruction::get_machine_instructions()
     add_machine_instr(result, "CLGIJ", mach_format::RIE_c, { reg_4_U, imm_8_S, mask_4_U, reg_imm_16_S }, 638);
     add_machine_instr(result, "CLRT", mach_format::RRF_c, { reg_4_U, reg_4_U, mask_4_U }, 639);
     add_machine_instr(result, "CLGRT", mach_format::RRF_c, { reg_4_U, reg_4_U, mask_4_U }, 639);
-    add_machine_instr(result, "CLT", mach_format::RSY_b, { reg_4_U, mask_4_U, dxb_20_4x4_S }, 639);
-    add_machine_instr(result, "CLGT", mach_format::RSY_b, { reg_4_U, mask_4_U, dxb_20_4x4_S }, 639);
+    add_machine_instr(result, "CLT", mach_format::RSY_b, { reg_4_U, mask_4_U, db_20_4_S }, 639);
+    add_machine_instr(result, "CLGT", mach_format::RSY_b, { reg_4_U, mask_4_U, db_20_4_S }, 639);
     add_machine_instr(result, "CLFIT", mach_format::RIE_a, { reg_4_U, imm_16_S, mask_4_U }, 640);
     add_machine_instr(result, "CLGIT", mach_format::RIE_a, { reg_4_U, imm_16_S, mask_4_U }, 640);
     add_machine_instr(result, "CLM", mach_format::RS_b, { reg_4_U, mask_4_U, db_12_4_U }, 641);
@@ -536,11 +536,11 @@ hlasm_plugin::parser_library::context::instruction::get_machine_instructions()
     add_machine_instr(result, "XG", mach_format::RXY_a, { reg_4_U, dxb_20_4x4_S }, 738);
     add_machine_instr(result, "XI", mach_format::SI, { db_12_4_U, imm_8_S }, 739);
     add_machine_instr(result, "XIY", mach_format::SIY, { db_20_4_S, imm_8_S }, 739);
-    add_machine_instr(result, "XC", mach_format::SS_a, { db_12_8x4L_U, db_20_4_S }, 739);
+    add_machine_instr(result, "XC", mach_format::SS_a, { db_12_8x4L_U, db_12_4_U }, 739);
     add_machine_instr(result, "EX", mach_format::RX_a, { reg_4_U, dxb_12_4x4_U }, 740);
     add_machine_instr(result, "XIHF", mach_format::RIL_a, { reg_4_U, imm_32_S }, 740);
     add_machine_instr(result, "XILF", mach_format::RIL_a, { reg_4_U, imm_32_S }, 740);
-    add_machine_instr(result, "EXRL", mach_format::RIL_b, { reg_4_U, imm_32_S }, 740);
+    add_machine_instr(result, "EXRL", mach_format::RIL_b, { reg_4_U, reg_imm_32_S }, 740);
     add_machine_instr(result, "EAR", mach_format::RRE, { reg_4_U, reg_4_U }, 741);
     add_machine_instr(result, "ECAG", mach_format::RSY_a, { reg_4_U, reg_4_U, db_20_4_S }, 741);
     add_machine_instr(result, "ECTG", mach_format::SSF, { db_12_4_U, db_12_4_U, reg_4_U }, 744);
@@ -616,8 +616,8 @@ hlasm_plugin::parser_library::context::instruction::get_machine_instructions()
     add_machine_instr(result, "LGH", mach_format::RXY_a, { reg_4_U, dxb_20_4x4_S }, 760);
     add_machine_instr(result, "LHI", mach_format::RI_a, { reg_4_U, imm_16_S }, 760);
     add_machine_instr(result, "LGHI", mach_format::RI_a, { reg_4_U, imm_16_S }, 760);
-    add_machine_instr(result, "LHRL", mach_format::RIL_b, { reg_4_U, imm_32_S }, 760);
-    add_machine_instr(result, "LGHRL", mach_format::RIL_b, { reg_4_U, imm_32_S }, 760);
+    add_machine_instr(result, "LHRL", mach_format::RIL_b, { reg_4_U, reg_imm_32_S }, 760);
+    add_machine_instr(result, "LGHRL", mach_format::RIL_b, { reg_4_U, reg_imm_32_S }, 760);
     add_machine_instr(result, "LHH", mach_format::RXY_a, { reg_4_U, dxb_20_4x4_S }, 761);
     add_machine_instr(result, "LOCHI", mach_format::RIE_g, { reg_4_U, imm_16_S, mask_4_U }, 761);
     add_machine_instr(result, "LOCGHI", mach_format::RIE_g, { reg_4_U, imm_16_S, mask_4_U }, 761);
@@ -682,7 +682,7 @@ hlasm_plugin::parser_library::context::instruction::get_machine_instructions()
     add_machine_instr(result, "MVHI", mach_format::SIL, { db_12_4_U, imm_16_S }, 773);
     add_machine_instr(result, "MVGHI", mach_format::SIL, { db_12_4_U, imm_16_S }, 773);
     add_machine_instr(result, "MVI", mach_format::SI, { db_12_4_U, imm_8_U }, 773);
-    add_machine_instr(result, "MVIY", mach_format::SIY, { db_12_4_U, imm_8_U }, 773);
+    add_machine_instr(result, "MVIY", mach_format::SIY, { db_20_4_S, imm_8_U }, 773);
     add_machine_instr(result, "MVCIN", mach_format::SS_a, { db_12_8x4L_U, db_12_4_U }, 774);
     add_machine_instr(result, "MVCL", mach_format::RR, { reg_4_U, reg_4_U }, 774);
     add_machine_instr(result, "MVCLE", mach_format::RS_a, { reg_4_U, reg_4_U, db_12_4_U }, 778);
@@ -812,7 +812,7 @@ hlasm_plugin::parser_library::context::instruction::get_machine_instructions()
     add_machine_instr(result, "STCK", mach_format::S, { db_12_4_U }, 863);
     add_machine_instr(result, "STCKF", mach_format::S, { db_12_4_U }, 863);
     add_machine_instr(result, "STCKE", mach_format::S, { db_12_4_U }, 864);
-    add_machine_instr(result, "STFLE", mach_format::S, { db_20_4_S }, 866);
+    add_machine_instr(result, "STFLE", mach_format::S, { db_12_4_U }, 866);
     add_machine_instr(result, "STGSC", mach_format::RXY_a, { reg_4_U, dxb_20_4x4_S }, 867);
     add_machine_instr(result, "STH", mach_format::RX_a, { reg_4_U, dxb_12_4x4_U }, 867);
     add_machine_instr(result, "STHY", mach_format::RXY_a, { reg_4_U, dxb_20_4x4_S }, 868);
@@ -1226,9 +1226,9 @@ hlasm_plugin::parser_library::context::instruction::get_machine_instructions()
     add_machine_instr(result, "LPCTL", mach_format::S, { db_12_4_U }, 41);
     add_machine_instr(result, "LCCTL", mach_format::S, { db_12_4_U }, 40);
     add_machine_instr(result, "LXEBR", mach_format::RRE, { reg_4_U, reg_4_U }, 1463);
-    add_machine_instr(result, "LDEB", mach_format::RRE, { reg_4_U, reg_4_U }, 1464);
-    add_machine_instr(result, "LXDB", mach_format::RRE, { reg_4_U, reg_4_U }, 1464);
-    add_machine_instr(result, "LXEB", mach_format::RRE, { reg_4_U, reg_4_U }, 1464);
+    add_machine_instr(result, "LDEB", mach_format::RXE, { reg_4_U, dxb_12_4x4_U }, 1464);
+    add_machine_instr(result, "LXDB", mach_format::RXE, { reg_4_U, dxb_12_4x4_U }, 1464);
+    add_machine_instr(result, "LXEB", mach_format::RXE, { reg_4_U, dxb_12_4x4_U }, 1464);
     add_machine_instr(result, "LNEBR", mach_format::RRE, { reg_4_U, reg_4_U }, 1464);
     add_machine_instr(result, "LNDBR", mach_format::RRE, { reg_4_U, reg_4_U }, 1464);
     add_machine_instr(result, "LNXBR", mach_format::RRE, { reg_4_U, reg_4_U }, 1464);
-- 
2.43.0


From 0bb304f10ab862b563f976259585c3522cb7020c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:03 +0000
Subject: [PATCH 49/84] fix: the mask of CU21 and CUUTF is optional

---
 parser_library/src/context/instruction.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser_library/src/context/instruction.cpp b/parser_library/src/context/instruction.cpp
index 517c0bd..c4abd71 100644
--- a/parser_library/src/context/instruction.cpp
+++ b/parser_library/src/context/instruction.cpp
@@ -497,8 +497,8 @@ hlasm_plugin::parser_library::context::instruction::get_machine_instructions()
     add_machine_instr(result, "CVDY", mach_format::RXY_a, { reg_4_U, dxb_20_4x4_S }, 715);
     add_machine_instr(result, "CVDG", mach_format::RXY_a, { reg_4_U, dxb_20_4x4_S }, 715);
     add_machine_instr(result, "CU24", mach_format::RRF_c, { reg_4_U, reg_4_U, mask_4_U }, 1, 715);
-    add_machine_instr(result, "CUUTF", mach_format::RRF_c, { reg_4_U, reg_4_U, mask_4_U }, 718);
-    add_machine_instr(result, "CU21", mach_format::RRF_c, { reg_4_U, reg_4_U, mask_4_U }, 718);
+    add_machine_instr(result, "CUUTF", mach_format::RRF_c, { reg_4_U, reg_4_U, mask_4_U }, 1, 718);
+    add_machine_instr(result, "CU21", mach_format::RRF_c, { reg_4_U, reg_4_U, mask_4_U }, 1, 718);
     add_machine_instr(result, "CU42", mach_format::RRE, { reg_4_U, reg_4_U }, 722);
     add_machine_instr(result, "CU41", mach_format::RRE, { reg_4_U, reg_4_U }, 725);
     add_machine_instr(result, "CUTFU", mach_format::RRF_c, { reg_4_U, reg_4_U, mask_4_U }, 1, 728);
-- 
2.43.0


From ae62849a508177d1fa4400548d49ec8647b6414b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:03 +0000
Subject: [PATCH 50/84] fix: unsigned immediate operands of logical
 instructions

Values with the leading bit on, like XI FLAG,X'FF' or LLILL 1,X'FFFF', were refused.
---
 parser_library/src/context/instruction.cpp | 76 +++++++++++-----------
 1 file changed, 38 insertions(+), 38 deletions(-)

diff --git a/parser_library/src/context/instruction.cpp b/parser_library/src/context/instruction.cpp
index c4abd71..32d5adb 100644
--- a/parser_library/src/context/instruction.cpp
+++ b/parser_library/src/context/instruction.cpp
@@ -464,16 +464,16 @@ hlasm_plugin::parser_library::context::instruction::get_machine_instructions()
     add_machine_instr(result, "CLGRB", mach_format::RRS, { reg_4_U, reg_4_U, mask_4_U, db_12_4_U }, 638);
     add_machine_instr(result, "CLRJ", mach_format::RIE_b, { reg_4_U, reg_4_U, mask_4_U, reg_imm_16_S }, 638);
     add_machine_instr(result, "CLGRJ", mach_format::RIE_b, { reg_4_U, reg_4_U, mask_4_U, reg_imm_16_S }, 638);
-    add_machine_instr(result, "CLIB", mach_format::RIS, { reg_4_U, imm_8_S, mask_4_U, db_12_4_U }, 638);
-    add_machine_instr(result, "CLGIB", mach_format::RIS, { reg_4_U, imm_8_S, mask_4_U, db_12_4_U }, 638);
-    add_machine_instr(result, "CLIJ", mach_format::RIE_c, { reg_4_U, imm_8_S, mask_4_U, reg_imm_16_S }, 638);
-    add_machine_instr(result, "CLGIJ", mach_format::RIE_c, { reg_4_U, imm_8_S, mask_4_U, reg_imm_16_S }, 638);
+    add_machine_instr(result, "CLIB", mach_format::RIS, { reg_4_U, imm_8_U, mask_4_U, db_12_4_U }, 638);
+    add_machine_instr(result, "CLGIB", mach_format::RIS, { reg_4_U, imm_8_U, mask_4_U, db_12_4_U }, 638);
+    add_machine_instr(result, "CLIJ", mach_format::RIE_c, { reg_4_U, imm_8_U, mask_4_U, reg_imm_16_S }, 638);
+    add_machine_instr(result, "CLGIJ", mach_format::RIE_c, { reg_4_U, imm_8_U, mask_4_U, reg_imm_16_S }, 638);
     add_machine_instr(result, "CLRT", mach_format::RRF_c, { reg_4_U, reg_4_U, mask_4_U }, 639);
     add_machine_instr(result, "CLGRT", mach_format::RRF_c, { reg_4_U, reg_4_U, mask_4_U }, 639);
     add_machine_instr(result, "CLT", mach_format::RSY_b, { reg_4_U, mask_4_U, db_20_4_S }, 639);
     add_machine_instr(result, "CLGT", mach_format::RSY_b, { reg_4_U, mask_4_U, db_20_4_S }, 639);
-    add_machine_instr(result, "CLFIT", mach_format::RIE_a, { reg_4_U, imm_16_S, mask_4_U }, 640);
-    add_machine_instr(result, "CLGIT", mach_format::RIE_a, { reg_4_U, imm_16_S, mask_4_U }, 640);
+    add_machine_instr(result, "CLFIT", mach_format::RIE_a, { reg_4_U, imm_16_U, mask_4_U }, 640);
+    add_machine_instr(result, "CLGIT", mach_format::RIE_a, { reg_4_U, imm_16_U, mask_4_U }, 640);
     add_machine_instr(result, "CLM", mach_format::RS_b, { reg_4_U, mask_4_U, db_12_4_U }, 641);
     add_machine_instr(result, "CLMY", mach_format::RSY_b, { reg_4_U, mask_4_U, db_20_4_S }, 641);
     add_machine_instr(result, "CLMH", mach_format::RSY_b, { reg_4_U, mask_4_U, db_20_4_S }, 641);
@@ -534,8 +534,8 @@ hlasm_plugin::parser_library::context::instruction::get_machine_instructions()
     add_machine_instr(result, "X", mach_format::RX_a, { reg_4_U, dxb_12_4x4_U }, 738);
     add_machine_instr(result, "XY", mach_format::RXY_a, { reg_4_U, dxb_20_4x4_S }, 738);
     add_machine_instr(result, "XG", mach_format::RXY_a, { reg_4_U, dxb_20_4x4_S }, 738);
-    add_machine_instr(result, "XI", mach_format::SI, { db_12_4_U, imm_8_S }, 739);
-    add_machine_instr(result, "XIY", mach_format::SIY, { db_20_4_S, imm_8_S }, 739);
+    add_machine_instr(result, "XI", mach_format::SI, { db_12_4_U, imm_8_U }, 739);
+    add_machine_instr(result, "XIY", mach_format::SIY, { db_20_4_S, imm_8_U }, 739);
     add_machine_instr(result, "XC", mach_format::SS_a, { db_12_8x4L_U, db_12_4_U }, 739);
     add_machine_instr(result, "EX", mach_format::RX_a, { reg_4_U, dxb_12_4x4_U }, 740);
     add_machine_instr(result, "XIHF", mach_format::RIL_a, { reg_4_U, imm_32_S }, 740);
@@ -642,11 +642,11 @@ hlasm_plugin::parser_library::context::instruction::get_machine_instructions()
     add_machine_instr(result, "LLGHRL", mach_format::RIL_b, { reg_4_U, reg_imm_32_S }, 764);
     add_machine_instr(result, "LLHH", mach_format::RXY_a, { reg_4_U, dxb_20_4x4_S }, 765);
     add_machine_instr(result, "LLIHF", mach_format::RIL_a, { reg_4_U, imm_32_S }, 765);
-    add_machine_instr(result, "LLIHH", mach_format::RI_a, { reg_4_U, imm_16_S }, 765);
-    add_machine_instr(result, "LLIHL", mach_format::RI_a, { reg_4_U, imm_16_S }, 765);
+    add_machine_instr(result, "LLIHH", mach_format::RI_a, { reg_4_U, imm_16_U }, 765);
+    add_machine_instr(result, "LLIHL", mach_format::RI_a, { reg_4_U, imm_16_U }, 765);
     add_machine_instr(result, "LLILF", mach_format::RIL_a, { reg_4_U, imm_32_S }, 765);
-    add_machine_instr(result, "LLILH", mach_format::RI_a, { reg_4_U, imm_16_S }, 765);
-    add_machine_instr(result, "LLILL", mach_format::RI_a, { reg_4_U, imm_16_S }, 765);
+    add_machine_instr(result, "LLILH", mach_format::RI_a, { reg_4_U, imm_16_U }, 765);
+    add_machine_instr(result, "LLILL", mach_format::RI_a, { reg_4_U, imm_16_U }, 765);
     add_machine_instr(result, "LLGTR", mach_format::RRE, { reg_4_U, reg_4_U }, 765);
     add_machine_instr(result, "LLGT", mach_format::RXY_a, { reg_4_U, dxb_20_4x4_S }, 766);
     add_machine_instr(result, "LLGTAT", mach_format::RXY_a, { reg_4_U, dxb_20_4x4_S }, 766);
@@ -675,7 +675,7 @@ hlasm_plugin::parser_library::context::instruction::get_machine_instructions()
     add_machine_instr(result, "LRVH", mach_format::RXY_a, { reg_4_U, dxb_20_4x4_S }, 771);
     add_machine_instr(result, "LRV", mach_format::RXY_a, { reg_4_U, dxb_20_4x4_S }, 771);
     add_machine_instr(result, "LRVG", mach_format::RXY_a, { reg_4_U, dxb_20_4x4_S }, 771);
-    add_machine_instr(result, "MC", mach_format::SI, { db_12_4_U, imm_8_S }, 772);
+    add_machine_instr(result, "MC", mach_format::SI, { db_12_4_U, imm_8_U }, 772);
     add_machine_instr(result, "MVC", mach_format::SS_a, { db_12_8x4L_U, db_12_4_U }, 773);
     add_machine_instr(result, "MVCRL", mach_format::SSE, { db_12_4_U, db_12_4_U }, 788);
     add_machine_instr(result, "MVHHI", mach_format::SIL, { db_12_4_U, imm_16_S }, 773);
@@ -741,11 +741,11 @@ hlasm_plugin::parser_library::context::instruction::get_machine_instructions()
     add_machine_instr(result, "OIY", mach_format::SIY, { db_20_4_S, imm_8_U }, 795);
     add_machine_instr(result, "OC", mach_format::SS_a, { db_12_8x4L_U, db_12_4_U }, 795);
     add_machine_instr(result, "OIHF", mach_format::RIL_a, { reg_4_U, imm_32_S }, 796);
-    add_machine_instr(result, "OIHH", mach_format::RI_a, { reg_4_U, imm_16_S }, 796);
-    add_machine_instr(result, "OIHL", mach_format::RI_a, { reg_4_U, imm_16_S }, 796);
+    add_machine_instr(result, "OIHH", mach_format::RI_a, { reg_4_U, imm_16_U }, 796);
+    add_machine_instr(result, "OIHL", mach_format::RI_a, { reg_4_U, imm_16_U }, 796);
     add_machine_instr(result, "OILF", mach_format::RIL_a, { reg_4_U, imm_32_S }, 796);
-    add_machine_instr(result, "OILH", mach_format::RI_a, { reg_4_U, imm_16_S }, 796);
-    add_machine_instr(result, "OILL", mach_format::RI_a, { reg_4_U, imm_16_S }, 796);
+    add_machine_instr(result, "OILH", mach_format::RI_a, { reg_4_U, imm_16_U }, 796);
+    add_machine_instr(result, "OILL", mach_format::RI_a, { reg_4_U, imm_16_U }, 796);
     add_machine_instr(result, "PACK", mach_format::SS_b, { db_12_4x4L_U, db_12_4x4L_U }, 796);
     add_machine_instr(result, "PKA", mach_format::SS_f, { db_12_4_U, db_12_8x4L_U }, 797);
     add_machine_instr(result, "PKU", mach_format::SS_f, { db_12_4_U, db_12_8x4L_U }, 798);
@@ -759,20 +759,20 @@ hlasm_plugin::parser_library::context::instruction::get_machine_instructions()
     add_machine_instr(result, "PFDRL", mach_format::RIL_c, { mask_4_U, reg_imm_32_S }, 843);
     add_machine_instr(result, "RLL", mach_format::RSY_a, { reg_4_U, reg_4_U, db_20_4_S }, 845);
     add_machine_instr(result, "RLLG", mach_format::RSY_a, { reg_4_U, reg_4_U, db_20_4_S }, 845);
-    add_machine_instr(result, "RNSBG", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_S, imm_8_S, imm_8_S }, 1, 845);
-    add_machine_instr(result, "RXSBG", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_S, imm_8_S, imm_8_S }, 1, 846);
-    add_machine_instr(result, "ROSBG", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_S, imm_8_S, imm_8_S }, 1, 846);
-    add_machine_instr(result, "RISBG", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_S, imm_8_S, imm_8_S }, 1, 847);
-    add_machine_instr(result, "RISBGN", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_S, imm_8_S, imm_8_S }, 1, 847);
-    add_machine_instr(result, "RISBHG", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_S, imm_8_S, imm_8_S }, 1, 848);
-    add_machine_instr(result, "RISBLG", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_S, imm_8_S, imm_8_S }, 1, 849);
-    add_machine_instr(result, "RNSBGT", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_S, imm_8_S, imm_8_S }, 1, 845);
-    add_machine_instr(result, "RXSBGT", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_S, imm_8_S, imm_8_S }, 1, 846);
-    add_machine_instr(result, "ROSBGT", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_S, imm_8_S, imm_8_S }, 1, 858);
-    add_machine_instr(result, "RISBGZ", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_S, imm_8_S, imm_8_S }, 1, 858);
-    add_machine_instr(result, "RISBGNZ", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_S, imm_8_S, imm_8_S }, 1, 860);
-    add_machine_instr(result, "RISBHGZ", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_S, imm_8_S, imm_8_S }, 1, 860);
-    add_machine_instr(result, "RISBLGZ", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_S, imm_8_S, imm_8_S }, 1, 860);
+    add_machine_instr(result, "RNSBG", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_U, imm_8_U, imm_8_S }, 1, 845);
+    add_machine_instr(result, "RXSBG", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_U, imm_8_U, imm_8_S }, 1, 846);
+    add_machine_instr(result, "ROSBG", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_U, imm_8_U, imm_8_S }, 1, 846);
+    add_machine_instr(result, "RISBG", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_U, imm_8_U, imm_8_S }, 1, 847);
+    add_machine_instr(result, "RISBGN", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_U, imm_8_U, imm_8_S }, 1, 847);
+    add_machine_instr(result, "RISBHG", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_U, imm_8_U, imm_8_S }, 1, 848);
+    add_machine_instr(result, "RISBLG", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_U, imm_8_U, imm_8_S }, 1, 849);
+    add_machine_instr(result, "RNSBGT", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_U, imm_8_U, imm_8_S }, 1, 845);
+    add_machine_instr(result, "RXSBGT", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_U, imm_8_U, imm_8_S }, 1, 846);
+    add_machine_instr(result, "ROSBGT", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_U, imm_8_U, imm_8_S }, 1, 858);
+    add_machine_instr(result, "RISBGZ", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_U, imm_8_U, imm_8_S }, 1, 858);
+    add_machine_instr(result, "RISBGNZ", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_U, imm_8_U, imm_8_S }, 1, 860);
+    add_machine_instr(result, "RISBHGZ", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_U, imm_8_U, imm_8_S }, 1, 860);
+    add_machine_instr(result, "RISBLGZ", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_U, imm_8_U, imm_8_S }, 1, 860);
     add_machine_instr(result, "SRST", mach_format::RRE, { reg_4_U, reg_4_U }, 850);
     add_machine_instr(result, "SRSTU", mach_format::RRE, { reg_4_U, reg_4_U }, 852);
     add_machine_instr(result, "SAR", mach_format::RRE, { reg_4_U, reg_4_U }, 854);
@@ -873,8 +873,8 @@ hlasm_plugin::parser_library::context::instruction::get_machine_instructions()
     add_machine_instr(result, "TML", mach_format::RI_a, { reg_4_U, imm_16_U }, 877);
     add_machine_instr(result, "TMLL", mach_format::RI_a, { reg_4_U, imm_16_U }, 877);
     add_machine_instr(result, "TABORT", mach_format::S, { db_12_4_U }, 878);
-    add_machine_instr(result, "TBEGIN", mach_format::SIL, { db_12_4_U, imm_16_S }, 879);
-    add_machine_instr(result, "TBEGINC", mach_format::SIL, { db_12_4_U, imm_16_S }, 883);
+    add_machine_instr(result, "TBEGIN", mach_format::SIL, { db_12_4_U, imm_16_U }, 879);
+    add_machine_instr(result, "TBEGINC", mach_format::SIL, { db_12_4_U, imm_16_U }, 883);
     add_machine_instr(result, "TEND", mach_format::S, {}, 885);
     add_machine_instr(result, "TR", mach_format::SS_a, { db_12_8x4L_U, db_12_4_U }, 886);
     add_machine_instr(result, "TRT", mach_format::SS_a, { db_12_8x4L_U, db_12_4_U }, 887);
@@ -1015,8 +1015,8 @@ hlasm_plugin::parser_library::context::instruction::get_machine_instructions()
     add_machine_instr(result, "STPX", mach_format::S, { db_12_4_U }, 1121);
     add_machine_instr(result, "STRAG", mach_format::SSE, { db_12_4_U, db_12_4_U }, 1121);
     add_machine_instr(result, "STSI", mach_format::S, { db_12_4_U }, 1122);
-    add_machine_instr(result, "STOSM", mach_format::SI, { db_12_4_U, imm_8_S }, 1146);
-    add_machine_instr(result, "STNSM", mach_format::SI, { db_12_4_U, imm_8_S }, 1146);
+    add_machine_instr(result, "STOSM", mach_format::SI, { db_12_4_U, imm_8_U }, 1146);
+    add_machine_instr(result, "STNSM", mach_format::SI, { db_12_4_U, imm_8_U }, 1146);
     add_machine_instr(result, "STURA", mach_format::RRE, { reg_4_U, reg_4_U }, 1147);
     add_machine_instr(result, "STURG", mach_format::RRE, { reg_4_U, reg_4_U }, 1147);
     add_machine_instr(result, "TAR", mach_format::RRE, { reg_4_U, reg_4_U }, 1147);
@@ -1664,8 +1664,8 @@ hlasm_plugin::parser_library::context::instruction::get_machine_instructions()
     add_machine_instr(result, "VCP", mach_format::VRR_h, { vec_reg_4_U, vec_reg_4_U, mask_4_U }, 1644);
     add_machine_instr(result, "VCVB", mach_format::VRR_i, { reg_4_U, vec_reg_4_U, mask_4_U }, 1645);
     add_machine_instr(result, "VCVBG", mach_format::VRR_i, { reg_4_U, vec_reg_4_U, mask_4_U }, 1645);
-    add_machine_instr(result, "VCVD", mach_format::VRI_i, { vec_reg_4_U, reg_4_U, imm_8_S, mask_4_U }, 1646);
-    add_machine_instr(result, "VCVDG", mach_format::VRI_i, { vec_reg_4_U, reg_4_U, imm_8_S, mask_4_U }, 1646);
+    add_machine_instr(result, "VCVD", mach_format::VRI_i, { vec_reg_4_U, reg_4_U, imm_8_U, mask_4_U }, 1646);
+    add_machine_instr(result, "VCVDG", mach_format::VRI_i, { vec_reg_4_U, reg_4_U, imm_8_U, mask_4_U }, 1646);
     add_machine_instr(
         result, "VDP", mach_format::VRI_f, { vec_reg_4_U, vec_reg_4_U, vec_reg_4_U, imm_8_U, mask_4_U }, 1648);
     add_machine_instr(
@@ -1678,7 +1678,7 @@ hlasm_plugin::parser_library::context::instruction::get_machine_instructions()
         result, "VSDP", mach_format::VRI_f, { vec_reg_4_U, vec_reg_4_U, vec_reg_4_U, imm_8_U, mask_4_U }, 1656);
     add_machine_instr(
         result, "VSP", mach_format::VRI_f, { vec_reg_4_U, vec_reg_4_U, vec_reg_4_U, imm_8_U, mask_4_U }, 1658);
-    add_machine_instr(result, "VLIP", mach_format::VRI_h, { vec_reg_4_U, imm_16_S, imm_4_U }, 1649);
+    add_machine_instr(result, "VLIP", mach_format::VRI_h, { vec_reg_4_U, imm_16_U, imm_4_U }, 1649);
     add_machine_instr(result, "VPKZ", mach_format::VSI, { vec_reg_4_U, db_12_4_U, imm_8_U }, 1652);
     add_machine_instr(
         result, "VPSOP", mach_format::VRI_g, { vec_reg_4_U, vec_reg_4_U, imm_8_U, imm_8_U, mask_4_U }, 1653);
-- 
2.43.0


From c38c9615dc4ca5fca1c83d8ec700200d019b174b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:03 +0000
Subject: [PATCH 51/84] fix: places of the operands supplied by vector
 mnemonics

WFCxB and WFKxB wrote behind the operand vector; VISTRx, VFSxB, VACQ, VACCCQ and VZERO
supplied or checked the wrong operands.
---
 parser_library/src/context/instruction.cpp | 40 +++++++++++-----------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/parser_library/src/context/instruction.cpp b/parser_library/src/context/instruction.cpp
index 32d5adb..8cf6dbb 100644
--- a/parser_library/src/context/instruction.cpp
+++ b/parser_library/src/context/instruction.cpp
@@ -2029,7 +2029,7 @@ std::map<std::string, mnemonic_code> hlasm_plugin::parser_library::context::inst
     add_mnemonic_code(result, "SELRNL", { &i.at("SELR"), { { 3, 11 } } });
     add_mnemonic_code(result, "SELRNO", { &i.at("SELR"), { { 3, 14 } } });
     add_mnemonic_code(result, "SELRO", { &i.at("SELR"), { { 3, 1 } } });
-    add_mnemonic_code(result, "VZERO", { &i.at("VGBM"), { { 0, 1 } } });
+    add_mnemonic_code(result, "VZERO", { &i.at("VGBM"), { { 1, 0 } } });
     add_mnemonic_code(result, "VONE", { &i.at("VGBM"), { { 1, 65535 } } });
     add_mnemonic_code(result, "VGMB", { &i.at("VGM"), { { 3, 0 } } });
     add_mnemonic_code(result, "VGMH", { &i.at("VGM"), { { 3, 1 } } });
@@ -2109,8 +2109,8 @@ std::map<std::string, mnemonic_code> hlasm_plugin::parser_library::context::inst
     add_mnemonic_code(result, "VACCF", { &i.at("VACC"), { { 3, 2 } } });
     add_mnemonic_code(result, "VACCG", { &i.at("VACC"), { { 3, 3 } } });
     add_mnemonic_code(result, "VACCQ", { &i.at("VACC"), { { 3, 4 } } });
-    add_mnemonic_code(result, "VACQ", { &i.at("VAC"), { { 3, 4 } } });
-    add_mnemonic_code(result, "VACCCQ", { &i.at("VACCC"), { { 3, 4 } } });
+    add_mnemonic_code(result, "VACQ", { &i.at("VAC"), { { 4, 4 } } });
+    add_mnemonic_code(result, "VACCCQ", { &i.at("VACCC"), { { 4, 4 } } });
     add_mnemonic_code(result, "VAVGB", { &i.at("VAVG"), { { 3, 0 } } });
     add_mnemonic_code(result, "VAVGH", { &i.at("VAVG"), { { 3, 1 } } });
     add_mnemonic_code(result, "VAVGF", { &i.at("VAVG"), { { 3, 2 } } });
@@ -2324,12 +2324,12 @@ std::map<std::string, mnemonic_code> hlasm_plugin::parser_library::context::inst
     add_mnemonic_code(result, "VFENEZBS", { &i.at("VFENE"), { { 3, 0 }, { 4, 3 } } });
     add_mnemonic_code(result, "VFENEZHS", { &i.at("VFENE"), { { 3, 1 }, { 4, 3 } } });
     add_mnemonic_code(result, "VFENEZFS", { &i.at("VFENE"), { { 3, 2 }, { 4, 3 } } });
-    add_mnemonic_code(result, "VISTRB", { &i.at("VISTR"), { { 3, 0 } } });
-    add_mnemonic_code(result, "VISTRH", { &i.at("VISTR"), { { 3, 1 } } });
-    add_mnemonic_code(result, "VISTRF", { &i.at("VISTR"), { { 3, 2 } } });
-    add_mnemonic_code(result, "VISTRBS", { &i.at("VISTR"), { { 3, 0 }, { 4, 1 } } });
-    add_mnemonic_code(result, "VISTRHS", { &i.at("VISTR"), { { 3, 1 }, { 4, 1 } } });
-    add_mnemonic_code(result, "VISTRFS", { &i.at("VISTR"), { { 3, 2 }, { 4, 1 } } });
+    add_mnemonic_code(result, "VISTRB", { &i.at("VISTR"), { { 2, 0 } } });
+    add_mnemonic_code(result, "VISTRH", { &i.at("VISTR"), { { 2, 1 } } });
+    add_mnemonic_code(result, "VISTRF", { &i.at("VISTR"), { { 2, 2 } } });
+    add_mnemonic_code(result, "VISTRBS", { &i.at("VISTR"), { { 2, 0 }, { 3, 1 } } });
+    add_mnemonic_code(result, "VISTRHS", { &i.at("VISTR"), { { 2, 1 }, { 3, 1 } } });
+    add_mnemonic_code(result, "VISTRFS", { &i.at("VISTR"), { { 2, 2 }, { 3, 1 } } });
     add_mnemonic_code(result, "VSTRCB", { &i.at("VSTRC"), { { 4, 0 } } });
     add_mnemonic_code(result, "VSTRCH", { &i.at("VSTRC"), { { 4, 1 } } });
     add_mnemonic_code(result, "VSTRCF", { &i.at("VSTRC"), { { 4, 2 } } });
@@ -2342,12 +2342,12 @@ std::map<std::string, mnemonic_code> hlasm_plugin::parser_library::context::inst
     add_mnemonic_code(result, "WFASB", { &i.at("VFA"), { { 3, 2 }, { 4, 8 } } });
     add_mnemonic_code(result, "WFADB", { &i.at("VFA"), { { 3, 3 }, { 4, 8 } } });
     add_mnemonic_code(result, "WFAXB", { &i.at("VFA"), { { 3, 4 }, { 4, 8 } } });
-    add_mnemonic_code(result, "WFCSB", { &i.at("WFC"), { { 3, 2 }, { 4, 0 } } });
-    add_mnemonic_code(result, "WFCDB", { &i.at("WFC"), { { 3, 3 }, { 4, 0 } } });
-    add_mnemonic_code(result, "WFCXB", { &i.at("WFC"), { { 3, 4 }, { 4, 0 } } });
-    add_mnemonic_code(result, "WFKSB", { &i.at("WFK"), { { 3, 2 }, { 4, 0 } } });
-    add_mnemonic_code(result, "WFKDB", { &i.at("WFK"), { { 3, 3 }, { 4, 0 } } });
-    add_mnemonic_code(result, "WFKXB", { &i.at("WFK"), { { 3, 4 }, { 4, 0 } } });
+    add_mnemonic_code(result, "WFCSB", { &i.at("WFC"), { { 2, 2 }, { 3, 0 } } });
+    add_mnemonic_code(result, "WFCDB", { &i.at("WFC"), { { 2, 3 }, { 3, 0 } } });
+    add_mnemonic_code(result, "WFCXB", { &i.at("WFC"), { { 2, 4 }, { 3, 0 } } });
+    add_mnemonic_code(result, "WFKSB", { &i.at("WFK"), { { 2, 2 }, { 3, 0 } } });
+    add_mnemonic_code(result, "WFKDB", { &i.at("WFK"), { { 2, 3 }, { 3, 0 } } });
+    add_mnemonic_code(result, "WFKXB", { &i.at("WFK"), { { 2, 4 }, { 3, 0 } } });
     add_mnemonic_code(result, "VFCESB", { &i.at("VFCE"), { { 3, 2 }, { 4, 0 }, { 5, 0 } } });
     add_mnemonic_code(result, "VFCESBS", { &i.at("VFCE"), { { 3, 2 }, { 4, 0 }, { 5, 1 } } });
     add_mnemonic_code(result, "VFCEDB", { &i.at("VFCE"), { { 3, 3 }, { 4, 0 }, { 5, 0 } } });
@@ -2504,11 +2504,11 @@ std::map<std::string, mnemonic_code> hlasm_plugin::parser_library::context::inst
     add_mnemonic_code(result, "WFSQSB", { &i.at("VFSQ"), { { 2, 2 }, { 3, 8 } } });
     add_mnemonic_code(result, "WFSQDB", { &i.at("VFSQ"), { { 2, 3 }, { 3, 8 } } });
     add_mnemonic_code(result, "WFSQXB", { &i.at("VFSQ"), { { 2, 4 }, { 3, 8 } } });
-    add_mnemonic_code(result, "VFSSB", { &i.at("VFS"), { { 2, 2 }, { 3, 0 } } });
-    add_mnemonic_code(result, "VFSDB", { &i.at("VFS"), { { 2, 3 }, { 3, 0 } } });
-    add_mnemonic_code(result, "WFSSB", { &i.at("VFS"), { { 2, 2 }, { 3, 8 } } });
-    add_mnemonic_code(result, "WFSDB", { &i.at("VFS"), { { 2, 3 }, { 3, 8 } } });
-    add_mnemonic_code(result, "WFSXB", { &i.at("VFS"), { { 2, 4 }, { 3, 8 } } });
+    add_mnemonic_code(result, "VFSSB", { &i.at("VFS"), { { 3, 2 }, { 4, 0 } } });
+    add_mnemonic_code(result, "VFSDB", { &i.at("VFS"), { { 3, 3 }, { 4, 0 } } });
+    add_mnemonic_code(result, "WFSSB", { &i.at("VFS"), { { 3, 2 }, { 4, 8 } } });
+    add_mnemonic_code(result, "WFSDB", { &i.at("VFS"), { { 3, 3 }, { 4, 8 } } });
+    add_mnemonic_code(result, "WFSXB", { &i.at("VFS"), { { 3, 4 }, { 4, 8 } } });
     add_mnemonic_code(result, "VFTCISB", { &i.at("VFTCI"), { { 3, 2 }, { 4, 0 } } });
     add_mnemonic_code(result, "VFTCIDB", { &i.at("VFTCI"), { { 3, 3 }, { 4, 0 } } });
     add_mnemonic_code(result, "WFTCISB", { &i.at("VFTCI"), { { 3, 2 }, { 4, 8 } } });
-- 
2.43.0


From ef1e4b2e4013d731bf6e92039b391d07534c21eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:03 +0000
Subject: [PATCH 52/84] fix: check the only parameter of an address operand

The value of X in D(X) and of L in D(L) was computed but never checked.
---
 parser_library/src/checking/instr_operand.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser_library/src/checking/instr_operand.cpp b/parser_library/src/checking/instr_operand.cpp
index 0012e4e..dff7a2a 100644
--- a/parser_library/src/checking/instr_operand.cpp
+++ b/parser_library/src/checking/instr_operand.cpp
@@ -172,14 +172,14 @@ bool address_operand::check(diagnostic_op& diag,
 
                 // length parameters can have +1 values specified
                 if (to_check.first.type == machine_operand_type::LENGTH
-                    && !is_length_corresponding(first_op, to_check.first.size))
+                    && !is_length_corresponding(actual_val, to_check.first.size))
                 {
                     diag = get_first_parameter_error(
                         to_check.first.type, instr_name, 0, 1ll << to_check.first.size, stmt_range);
                     return false;
                 }
                 if (to_check.first.type != machine_operand_type::LENGTH
-                    && !is_operand_corresponding(first_op, to_check.first))
+                    && !is_operand_corresponding(actual_val, to_check.first))
                 {
                     assert(!to_check.first.is_signed);
                     diag = get_first_parameter_error(
-- 
2.43.0


From eed6f7a12d7edae5212b3e97a42c1f94f6fdd228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:03 +0000
Subject: [PATCH 53/84] fix: extended mnemonics of instructions with optional
 operands

They were always refused because the operand vector was too long, and with too few operands
it contained null pointers.
---
 parser_library/src/context/instruction.h             |  2 +-
 .../instruction_sets/low_language_processor.cpp      | 12 +++++++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/parser_library/src/context/instruction.h b/parser_library/src/context/instruction.h
index 1038b97..a1cb8d2 100644
--- a/parser_library/src/context/instruction.h
+++ b/parser_library/src/context/instruction.h
@@ -242,7 +242,7 @@ public:
     // first goes place, then value
     std::vector<std::pair<size_t, size_t>> replaced;
 
-    size_t operand_count() const { return instruction->operands.size() + instruction->no_optional - replaced.size(); }
+    size_t operand_count() const { return instruction->operands.size() - replaced.size(); }
 };
 
 // machine instruction common representation
diff --git a/parser_library/src/processing/instruction_sets/low_language_processor.cpp b/parser_library/src/processing/instruction_sets/low_language_processor.cpp
index fb01e4f..6470b19 100644
--- a/parser_library/src/processing/instruction_sets/low_language_processor.cpp
+++ b/parser_library/src/processing/instruction_sets/low_language_processor.cpp
@@ -14,6 +14,7 @@
 
 #include "low_language_processor.h"
 
+#include <algorithm>
 #include <optional>
 
 #include "processing/context_manager.h"
@@ -205,11 +206,16 @@ low_language_processor::transform_result low_language_processor::transform_mnemo
     // check whether substituted mnemonic values are ok
 
     // check size of mnemonic operands
+    // only the operands behind the last substituted one may be left out
+    size_t mandatory = curr_instr->operands.size() - curr_instr->no_optional;
+    for (const auto& mnem : mnemonic.replaced)
+        mandatory = std::max(mandatory, mnem.first + 1);
+    int optional = (int)(curr_instr->operands.size() - mandatory);
     int diff = (int)curr_instr->operands.size() - (int)operands.size() - (int)mnemonic.replaced.size();
-    if (std::abs(diff) > curr_instr->no_optional)
+    if (diff < 0 || diff > optional)
     {
         auto curr_diag = diagnostic_op::error_optional_number_of_operands(instr_name,
-            curr_instr->no_optional,
+            optional,
             (int)curr_instr->operands.size() - (int)mnemonic.replaced.size(),
             stmt.stmt_range_ref());
 
@@ -223,7 +229,7 @@ low_language_processor::transform_result low_language_processor::transform_mnemo
 
     std::vector<checking::check_op_ptr> operand_vector;
     // create vector of empty operands
-    for (size_t i = 0; i < curr_instr->operands.size() + curr_instr->no_optional; i++)
+    for (size_t i = 0; i < curr_instr->operands.size() - diff; i++)
         operand_vector.push_back(nullptr);
     // add substituted
     for (size_t i = 0; i < mnemonic.replaced.size(); i++)
-- 
2.43.0


From d4d2241f512d9c7465f9ff6c0ecb052c0395cffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:54 +0000
Subject: [PATCH 54/84] fix: value of the location counter in a machine
 instruction

An asterisk in an operand referred to the address before the alignment of the instruction.
---
 .../src/processing/instruction_sets/mach_processor.cpp         | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser_library/src/processing/instruction_sets/mach_processor.cpp b/parser_library/src/processing/instruction_sets/mach_processor.cpp
index f7bf7e4..1e6833c 100644
--- a/parser_library/src/processing/instruction_sets/mach_processor.cpp
+++ b/parser_library/src/processing/instruction_sets/mach_processor.cpp
@@ -31,6 +31,9 @@ mach_processor::mach_processor(analyzing_context ctx,
 
 void mach_processor::process(context::shared_stmt_ptr stmt)
 {
+    // the location counter in the operands is the address of the instruction
+    (void)hlasm_ctx.ord_ctx.align(context::halfword);
+
     auto rebuilt_stmt = preprocess(stmt);
 
     const auto& mach_instr = [](const std::string& name) {
-- 
2.43.0


From e4e085ab48403508fe3f239c5f597099d2a5157b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:01 +0000
Subject: [PATCH 55/84] fix: a configuration that cannot be loaded left an
 inconsistent one in force

---
 parser_library/src/workspaces/workspace.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/parser_library/src/workspaces/workspace.cpp b/parser_library/src/workspaces/workspace.cpp
index 1afd391..880c6ec 100644
--- a/parser_library/src/workspaces/workspace.cpp
+++ b/parser_library/src/workspaces/workspace.cpp
@@ -331,6 +331,12 @@ bool workspace::load_and_process_config()
 
     opened_ = true;
 
+    // nothing of the previous configuration stays in force, even if the new one cannot be loaded
+    proc_grps_.clear();
+    exact_pgm_conf_.clear();
+    regex_pgm_conf_.clear();
+    local_config_ = lib_config();
+
     config::pgm_conf pgm_config;
     config::proc_conf proc_groups;
     file_ptr pgm_conf_file;
@@ -427,7 +433,6 @@ bool workspace::load_config(config::proc_conf& proc_groups, config::pgm_conf& pg
     try
     {
         nlohmann::json::parse(proc_grps_file->get_text()).get_to(proc_groups);
-        proc_grps_.clear();
         for (const auto& pg : proc_groups.pgroups)
             if (!pg.asm_options.valid())
                 config_diags_.push_back(diagnostic_s::error_W005(proc_grps_file->get_file_name(), pg.name));
@@ -448,8 +453,6 @@ bool workspace::load_config(config::proc_conf& proc_groups, config::pgm_conf& pg
     try
     {
         nlohmann::json::parse(pgm_conf_file->get_text()).get_to(pgm_config);
-        exact_pgm_conf_.clear();
-        regex_pgm_conf_.clear();
     }
     catch (const nlohmann::json::exception&)
     {
-- 
2.43.0


From e89e2eb36033a13a640ca754a971ce009fad30ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:02 +0000
Subject: [PATCH 56/84] fix: members were analysed with the text they had
 before a change outside the editor

---
 parser_library/src/workspaces/workspace.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/parser_library/src/workspaces/workspace.cpp b/parser_library/src/workspaces/workspace.cpp
index 880c6ec..7498869 100644
--- a/parser_library/src/workspaces/workspace.cpp
+++ b/parser_library/src/workspaces/workspace.cpp
@@ -242,6 +242,14 @@ void workspace::did_close_file(const std::string& file_uri)
     if (is_dependency_(file_uri))
     {
         file_manager_.did_close_file(file_uri);
+
+        // changes that were not saved are gone with the editor
+        if (auto file = file_manager_.find(file_uri))
+        {
+            const auto edited_text = file->get_text();
+            if (file->update_and_get_bad() || file->get_text() != edited_text)
+                parse_file(file_uri);
+        }
         return;
     }
 
@@ -266,6 +274,11 @@ void workspace::did_change_file(const std::string file_uri, const document_chang
 void workspace::did_change_watched_files(const std::string& file_uri)
 {
     refresh_libraries();
+
+    // the file may be known with its previous content
+    if (auto file = file_manager_.find(file_uri); file && !file->get_lsp_editing())
+        file->update_and_get_bad();
+
     parse_file(file_uri);
 }
 
-- 
2.43.0


From 7fec2c4f992d75750421773c23175dece4095dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:02 +0000
Subject: [PATCH 57/84] fix: a change of the configuration did not reach all
 open files

---
 parser_library/src/workspaces/workspace.cpp | 55 ++++++++++++++-------
 parser_library/src/workspaces/workspace.h   |  9 ++++
 2 files changed, 45 insertions(+), 19 deletions(-)

diff --git a/parser_library/src/workspaces/workspace.cpp b/parser_library/src/workspaces/workspace.cpp
index 7498869..8ccf954 100644
--- a/parser_library/src/workspaces/workspace.cpp
+++ b/parser_library/src/workspaces/workspace.cpp
@@ -150,26 +150,11 @@ const ws_uri& workspace::uri() { return uri_; }
 
 void workspace::parse_file(const std::string& file_uri)
 {
-    std::filesystem::path file_path(file_uri);
     // add support for hlasm to vscode (auto detection??) and do the decision based on languageid
-    if (utils::path::equal(file_path, proc_grps_path_) || utils::path::equal(file_path, pgm_conf_path_))
+    if (is_config_file_(file_uri))
     {
-        if (load_and_process_config())
-        {
-            for (auto fname : dependants_)
-            {
-                auto found = file_manager_.find_processor_file(fname);
-                if (found)
-                    found->parse(*this);
-            }
-
-            for (auto fname : dependants_)
-            {
-                auto found = file_manager_.find_processor_file(fname);
-                if (found)
-                    filter_and_close_dependencies_(found->files_to_close(), found);
-            }
-        }
+        load_and_process_config();
+        parse_opened_files();
         return;
     }
     // what about removing files??? what if depentands_ points to not existing file?
@@ -197,6 +182,22 @@ void workspace::parse_file(const std::string& file_uri)
             files_to_parse.push_back(f);
     }
 
+    parse_files(files_to_parse);
+}
+
+void workspace::parse_opened_files()
+{
+    for (const auto& file_uri : std::set<std::string>(opened_files_))
+    {
+        if (is_dependency_(file_uri)) // parsed with the file that uses it
+            continue;
+        if (auto f = file_manager_.find_processor_file(file_uri))
+            parse_files({ f });
+    }
+}
+
+void workspace::parse_files(const std::vector<processor_file_ptr>& files_to_parse)
+{
     for (auto f : files_to_parse)
     {
         f->parse(*this);
@@ -232,11 +233,23 @@ void workspace::refresh_libraries()
     }
 }
 
-void workspace::did_open_file(const std::string& file_uri) { parse_file(file_uri); }
+bool workspace::is_config_file_(const std::string& file_uri) const
+{
+    std::filesystem::path file_path(file_uri);
+    return utils::path::equal(file_path, proc_grps_path_) || utils::path::equal(file_path, pgm_conf_path_);
+}
+
+void workspace::did_open_file(const std::string& file_uri)
+{
+    if (!is_config_file_(file_uri))
+        opened_files_.insert(file_uri);
+    parse_file(file_uri);
+}
 
 void workspace::did_close_file(const std::string& file_uri)
 {
     diag_suppress_notified_[file_uri] = false;
+    opened_files_.erase(file_uri);
     // first check whether the file is a dependency
     // if so, simply close it, no other action is needed
     if (is_dependency_(file_uri))
@@ -267,6 +280,10 @@ void workspace::did_close_file(const std::string& file_uri)
     // close the file itself
     file_manager_.did_close_file(file_uri);
     file_manager_.remove_file(file_uri);
+
+    // the configuration on the disk applies again
+    if (is_config_file_(file_uri))
+        parse_file(file_uri);
 }
 
 void workspace::did_change_file(const std::string file_uri, const document_change*, size_t) { parse_file(file_uri); }
diff --git a/parser_library/src/workspaces/workspace.h b/parser_library/src/workspaces/workspace.h
index 667a27b..40bc67d 100644
--- a/parser_library/src/workspaces/workspace.h
+++ b/parser_library/src/workspaces/workspace.h
@@ -147,6 +147,15 @@ private:
 
     bool is_wildcard(const std::string& str);
 
+    bool is_config_file_(const std::string& file_uri) const;
+
+    void parse_files(const std::vector<processor_file_ptr>& files_to_parse);
+    // parses all programs and members that are open in the editor
+    void parse_opened_files();
+
+    // files, that are open in the editor, except configuration
+    std::set<std::string> opened_files_;
+
     // files, that depend on others (e.g. open code files that use macros)
     std::set<std::string> dependants_;
 
-- 
2.43.0


From 4f09679fac6d26056b2f400db87e9d2aeaadff27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:02 +0000
Subject: [PATCH 58/84] fix: open members kept the results of the program that
 used them

---
 parser_library/src/workspaces/workspace.cpp | 27 ++++++++++++++++-----
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/parser_library/src/workspaces/workspace.cpp b/parser_library/src/workspaces/workspace.cpp
index 8ccf954..1707c26 100644
--- a/parser_library/src/workspaces/workspace.cpp
+++ b/parser_library/src/workspaces/workspace.cpp
@@ -204,6 +204,15 @@ void workspace::parse_files(const std::vector<processor_file_ptr>& files_to_pars
         if (!f->dependencies().empty())
             dependants_.insert(f->get_file_name());
 
+        // files used by the parsed one are no longer programs of their own
+        for (const auto& dependency : std::set<std::string>(f->dependencies()))
+        {
+            if (dependants_.find(dependency) == dependants_.end() || is_dependency_(f->get_file_name()))
+                continue;
+            dependants_.erase(dependency);
+            if (auto dependency_file = file_manager_.find_processor_file(dependency))
+                filter_and_close_dependencies_(dependency_file->dependencies(), dependency_file);
+        }
 
         // if there is no processor group assigned to the program, delete diagnostics that may have been created
         if (cancel_ && cancel_->load()) // skip, if parsing was cancelled using the cancellation token
@@ -271,10 +280,11 @@ void workspace::did_close_file(const std::string& file_uri)
     if (fname != dependants_.end())
     {
         auto file = file_manager_.find_processor_file(*fname);
-        // filter the dependencies that should not be closed
-        filter_and_close_dependencies_(file->dependencies(), file);
         // remove it from dependants
         dependants_.erase(fname);
+        // filter the dependencies that should not be closed
+        if (file)
+            filter_and_close_dependencies_(file->dependencies(), file);
     }
 
     // close the file itself
@@ -500,15 +510,13 @@ bool workspace::is_wildcard(const std::string& str)
 void workspace::filter_and_close_dependencies_(const std::set<std::string>& dependencies, processor_file_ptr file)
 {
     std::set<std::string> filtered;
-    // filters out externally open files
     for (auto& dependency : dependencies)
     {
-        auto dependency_file = file_manager_.find_processor_file(dependency);
-        if (dependency_file && !dependency_file->get_lsp_editing())
+        if (file_manager_.find_processor_file(dependency))
             filtered.insert(dependency);
     }
 
-    // filters the files that are dependencies of other dependants and externally open files
+    // filters the files that are dependencies of other dependants
     for (auto dependant : dependants_)
     {
         auto fdependant = file_manager_.find_processor_file(dependant);
@@ -524,6 +532,13 @@ void workspace::filter_and_close_dependencies_(const std::set<std::string>& depe
     // close all exclusive dependencies of file
     for (auto& dep : filtered)
     {
+        auto dependency_file = file_manager_.find_processor_file(dep);
+        if (dependency_file && dependency_file->get_lsp_editing())
+        {
+            // externally open files stay, on their own
+            parse_file(dep);
+            continue;
+        }
         file_manager_.did_close_file(dep);
         file_manager_.remove_file(dep);
     }
-- 
2.43.0


From 1fa43d59dbd27ab37ca410f92a311041333b4c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:02 +0000
Subject: [PATCH 59/84] fix: programs did not see members added to their
 libraries

---
 parser_library/src/workspaces/workspace.cpp | 20 ++++++++++++++++++--
 parser_library/src/workspaces/workspace.h   |  4 +++-
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/parser_library/src/workspaces/workspace.cpp b/parser_library/src/workspaces/workspace.cpp
index 1707c26..8003009 100644
--- a/parser_library/src/workspaces/workspace.cpp
+++ b/parser_library/src/workspaces/workspace.cpp
@@ -306,7 +306,23 @@ void workspace::did_change_watched_files(const std::string& file_uri)
     if (auto file = file_manager_.find(file_uri); file && !file->get_lsp_editing())
         file->update_and_get_bad();
 
-    parse_file(file_uri);
+    if (is_new_library_member_(file_uri))
+        parse_opened_files(); // any program may use it
+    else
+        parse_file(file_uri);
+}
+
+bool workspace::is_new_library_member_(const std::string& file_uri) const
+{
+    if (is_config_file_(file_uri) || is_dependency_(file_uri) || opened_files_.find(file_uri) != opened_files_.end())
+        return false;
+    const auto directory = std::filesystem::path(file_uri).parent_path();
+    for (const auto& [_, proc_grp] : proc_grps_)
+        for (const auto& lib : proc_grp.libraries())
+            if (auto local = dynamic_cast<const library_local*>(lib.get());
+                local && utils::path::equal(directory / "", local->get_lib_path()))
+                return true;
+    return false;
 }
 
 location workspace::definition(const std::string& document_uri, const position pos) const
@@ -544,7 +560,7 @@ void workspace::filter_and_close_dependencies_(const std::set<std::string>& depe
     }
 }
 
-bool workspace::is_dependency_(const std::string& file_uri)
+bool workspace::is_dependency_(const std::string& file_uri) const
 {
     for (auto dependant : dependants_)
     {
diff --git a/parser_library/src/workspaces/workspace.h b/parser_library/src/workspaces/workspace.h
index 40bc67d..722d41c 100644
--- a/parser_library/src/workspaces/workspace.h
+++ b/parser_library/src/workspaces/workspace.h
@@ -162,7 +162,9 @@ private:
     diagnostic_container config_diags_;
 
     void filter_and_close_dependencies_(const std::set<std::string>& dependencies, processor_file_ptr file);
-    bool is_dependency_(const std::string& file_uri);
+    bool is_dependency_(const std::string& file_uri) const;
+    // a file in one of the libraries that no parsed file uses so far
+    bool is_new_library_member_(const std::string& file_uri) const;
 
     bool program_id_match(const std::string& filename, const program_id& program) const;
 
-- 
2.43.0


From 97fcb09261c35f845d9cd329c6d52c9c30c7ea3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:58 +0000
Subject: [PATCH 60/84] fix: requests about a file whose first analysis was
 cancelled

---
 parser_library/src/lsp/lsp_context.cpp            |  5 ++++-
 .../src/workspaces/processor_file_impl.cpp        | 15 ++++++++++++---
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/parser_library/src/lsp/lsp_context.cpp b/parser_library/src/lsp/lsp_context.cpp
index 01c2c57..776ef48 100644
--- a/parser_library/src/lsp/lsp_context.cpp
+++ b/parser_library/src/lsp/lsp_context.cpp
@@ -207,7 +207,8 @@ completion_list_s lsp_context::completion(const std::string& document_uri,
 completion_list_s lsp_context::complete_var(const file_info& file, position pos) const
 {
     auto scope = file.find_scope(pos);
-
+    if (!scope && !opencode_) // the analysis was cancelled
+        return {};
 
     completion_list_s items;
     const vardef_storage& var_defs = scope ? scope->var_definitions : opencode_->variable_definitions;
@@ -223,6 +224,8 @@ completion_list_s lsp_context::complete_var(const file_info& file, position pos)
 completion_list_s lsp_context::complete_seq(const file_info& file, position pos) const
 {
     auto macro_i = file.find_scope(pos);
+    if (!macro_i && !opencode_) // the analysis was cancelled
+        return {};
 
     const context::label_storage& seq_syms =
         macro_i ? macro_i->macro_definition->labels : opencode_->hlasm_ctx.current_scope().sequence_symbols;
diff --git a/parser_library/src/workspaces/processor_file_impl.cpp b/parser_library/src/workspaces/processor_file_impl.cpp
index d7f6cd1..27a7cd2 100644
--- a/parser_library/src/workspaces/processor_file_impl.cpp
+++ b/parser_library/src/workspaces/processor_file_impl.cpp
@@ -97,14 +97,23 @@ const std::set<std::string>& processor_file_impl::dependencies() { return depend
 
 const semantics::lines_info& processor_file_impl::get_hl_info()
 {
-    return analyzer_->source_processor().semantic_tokens();
+    static const semantics::lines_info not_parsed;
+    return analyzer_ ? analyzer_->source_processor().semantic_tokens() : not_parsed;
 }
 
-const lsp::feature_provider& processor_file_impl::get_lsp_feature_provider() { return *analyzer_->context().lsp_ctx; }
+const lsp::feature_provider& processor_file_impl::get_lsp_feature_provider()
+{
+    static const lsp::lsp_context not_parsed;
+    return analyzer_ ? *analyzer_->context().lsp_ctx : not_parsed;
+}
 
 const std::set<std::string>& processor_file_impl::files_to_close() { return files_to_close_; }
 
-const performance_metrics& processor_file_impl::get_metrics() { return analyzer_->get_metrics(); }
+const performance_metrics& processor_file_impl::get_metrics() 
+{
+    static const performance_metrics not_parsed {};
+    return analyzer_ ? analyzer_->get_metrics() : not_parsed;
+}
 
 bool processor_file_impl::parse_inner(analyzer& new_analyzer)
 {
-- 
2.43.0


From 50b7cdf6a58a1657eff1eb511c101e9f1c2a0a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:28 +0000
Subject: [PATCH 61/84] fix: completion in a text that changed since its
 analysis and on its last line

---
 parser_library/src/lsp/text_data_ref_t.cpp | 26 ++++++++++------------
 parser_library/src/lsp/text_data_ref_t.h   |  5 ++---
 2 files changed, 14 insertions(+), 17 deletions(-)

diff --git a/parser_library/src/lsp/text_data_ref_t.cpp b/parser_library/src/lsp/text_data_ref_t.cpp
index 4625d03..57f2aba 100644
--- a/parser_library/src/lsp/text_data_ref_t.cpp
+++ b/parser_library/src/lsp/text_data_ref_t.cpp
@@ -19,7 +19,7 @@
 namespace hlasm_plugin::parser_library::lsp {
 
 text_data_ref_t::text_data_ref_t(const std::string& text)
-    : text(&text)
+    : text(text)
     , line_indices(workspaces::file_impl::create_line_indices(text))
 {}
 
@@ -27,18 +27,18 @@ std::string_view text_data_ref_t::get_line(size_t line) const
 {
     if (line >= line_indices.size())
         return "";
-    size_t line_end_i = (line < line_indices.size() - 1) ? line_indices[line + 1] : text->size();
+    size_t line_end_i = (line < line_indices.size() - 1) ? line_indices[line + 1] : text.size();
     size_t line_len = line_end_i - line_indices[line];
-    return { &text->at(line_indices[line]), line_len };
+    return std::string_view(text).substr(line_indices[line], line_len);
 }
 
 std::string_view text_data_ref_t::get_line_beginning(position pos) const
 {
     if (pos.line >= line_indices.size())
         return "";
-    size_t line_end_i = workspaces::file_impl::index_from_position(*text, line_indices, pos);
+    size_t line_end_i = workspaces::file_impl::index_from_position(text, line_indices, pos);
     size_t line_len = line_end_i - line_indices[pos.line];
-    return { &text->at(line_indices[pos.line]), line_len };
+    return std::string_view(text).substr(line_indices[pos.line], line_len);
 }
 
 
@@ -47,21 +47,19 @@ char text_data_ref_t::get_character_before(position pos) const
 {
     if (pos.column == 0)
         return '\0';
-    size_t index = workspaces::file_impl::index_from_position(*text, line_indices, { pos.line, pos.column - 1 });
-    return text->at(index);
+    size_t index = workspaces::file_impl::index_from_position(text, line_indices, { pos.line, pos.column - 1 });
+    return index < text.size() ? text[index] : '\0';
 }
 
 std::string_view text_data_ref_t::get_range_content(range r) const
 {
-    size_t start_i = workspaces::file_impl::index_from_position(*text, line_indices, r.start);
-    size_t end_i = workspaces::file_impl::index_from_position(*text, line_indices, r.end);
-    if (start_i >= text->size())
-        return empty_text;
-    return std::string_view(&text->at(start_i), end_i - start_i);
+    size_t start_i = workspaces::file_impl::index_from_position(text, line_indices, r.start);
+    size_t end_i = workspaces::file_impl::index_from_position(text, line_indices, r.end);
+    if (start_i >= text.size())
+        return {};
+    return std::string_view(text).substr(start_i, end_i - start_i);
 }
 
 size_t text_data_ref_t::get_number_of_lines() const { return line_indices.size(); }
 
-std::string text_data_ref_t::empty_text;
-
 } // namespace hlasm_plugin::parser_library::lsp
diff --git a/parser_library/src/lsp/text_data_ref_t.h b/parser_library/src/lsp/text_data_ref_t.h
index d891490..f4ce77e 100644
--- a/parser_library/src/lsp/text_data_ref_t.h
+++ b/parser_library/src/lsp/text_data_ref_t.h
@@ -24,11 +24,10 @@ namespace hlasm_plugin::parser_library::lsp {
 
 class text_data_ref_t
 {
-    const std::string* text = &empty_text;
+    // the text that was analysed, the file may have changed since
+    std::string text;
     std::vector<size_t> line_indices;
 
-    static std::string empty_text;
-
 public:
     text_data_ref_t() = default;
     explicit text_data_ref_t(const std::string& text);
-- 
2.43.0


From a6419ab3b209e4bc424081c803d51e8aebf8a85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:28 +0000
Subject: [PATCH 62/84] fix: analysis of open members released by a program may
 be cancelled

---
 parser_library/src/workspaces/workspace.cpp | 23 +++++++++++++++++++--
 parser_library/src/workspaces/workspace.h   |  4 ++++
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/parser_library/src/workspaces/workspace.cpp b/parser_library/src/workspaces/workspace.cpp
index 8003009..6056111 100644
--- a/parser_library/src/workspaces/workspace.cpp
+++ b/parser_library/src/workspaces/workspace.cpp
@@ -229,6 +229,23 @@ void workspace::parse_files(const std::vector<processor_file_ptr>& files_to_pars
     // second check after all dependants are there to close all files that used to be dependencies
     for (auto f : files_to_parse)
         filter_and_close_dependencies_(f->files_to_close(), f);
+
+    parse_released_files();
+}
+
+void workspace::parse_released_files()
+{
+    while (!released_files_.empty() && !(cancel_ && cancel_->load()))
+    {
+        const auto file_uri = *released_files_.begin();
+        released_files_.erase(released_files_.begin());
+        auto f = file_manager_.find_processor_file(file_uri);
+        if (!f || !f->get_lsp_editing() || is_dependency_(file_uri))
+            continue;
+        parse_files({ f });
+        if (cancel_ && cancel_->load())
+            released_files_.insert(file_uri); // once more, when there is time
+    }
 }
 
 void workspace::refresh_libraries()
@@ -284,7 +301,10 @@ void workspace::did_close_file(const std::string& file_uri)
         dependants_.erase(fname);
         // filter the dependencies that should not be closed
         if (file)
+        {
             filter_and_close_dependencies_(file->dependencies(), file);
+            parse_released_files();
+        }
     }
 
     // close the file itself
@@ -551,8 +571,7 @@ void workspace::filter_and_close_dependencies_(const std::set<std::string>& depe
         auto dependency_file = file_manager_.find_processor_file(dep);
         if (dependency_file && dependency_file->get_lsp_editing())
         {
-            // externally open files stay, on their own
-            parse_file(dep);
+            released_files_.insert(dep); // externally open files stay, on their own
             continue;
         }
         file_manager_.did_close_file(dep);
diff --git a/parser_library/src/workspaces/workspace.h b/parser_library/src/workspaces/workspace.h
index 722d41c..2bffee6 100644
--- a/parser_library/src/workspaces/workspace.h
+++ b/parser_library/src/workspaces/workspace.h
@@ -153,6 +153,10 @@ private:
     // parses all programs and members that are open in the editor
     void parse_opened_files();
 
+    // parses files that are open in the editor and are not used by any program any more
+    void parse_released_files();
+    std::set<std::string> released_files_;
+
     // files, that are open in the editor, except configuration
     std::set<std::string> opened_files_;
 
-- 
2.43.0


From 9631b9fb8441bf1f2c442ca3632da6c3a0116dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:23 +0000
Subject: [PATCH 63/84] fix: members used again after they were deleted

---
 parser_library/src/workspaces/workspace.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser_library/src/workspaces/workspace.cpp b/parser_library/src/workspaces/workspace.cpp
index 6056111..ba655cb 100644
--- a/parser_library/src/workspaces/workspace.cpp
+++ b/parser_library/src/workspaces/workspace.cpp
@@ -334,7 +334,7 @@ void workspace::did_change_watched_files(const std::string& file_uri)
 
 bool workspace::is_new_library_member_(const std::string& file_uri) const
 {
-    if (is_config_file_(file_uri) || is_dependency_(file_uri) || opened_files_.find(file_uri) != opened_files_.end())
+    if (is_config_file_(file_uri) || is_dependency_(file_uri))
         return false;
     const auto directory = std::filesystem::path(file_uri).parent_path();
     for (const auto& [_, proc_grp] : proc_grps_)
-- 
2.43.0


From 1aafd55f0038eb6c207076f7f2426f0bf9a75a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:54 +0000
Subject: [PATCH 64/84] fix: crash when the analysis is cancelled inside a
 library member

---
 parser_library/src/processing/processing_manager.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser_library/src/processing/processing_manager.cpp b/parser_library/src/processing/processing_manager.cpp
index 371a6fa..508114f 100644
--- a/parser_library/src/processing/processing_manager.cpp
+++ b/parser_library/src/processing/processing_manager.cpp
@@ -112,6 +112,10 @@ void processing_manager::start_processing(std::atomic<bool>* cancel)
 
         auto stmt = prov.get_next(proc);
 
+        // the analysis of a library member needed by the statement may have been cancelled half way
+        if (cancel && *cancel)
+            break;
+
         if (stmt)
         {
             update_metrics(proc.kind, prov.kind, hlasm_ctx_.metrics);
-- 
2.43.0


From f1a989c0308e47db0b03c3a6e9109aa12faf177e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:59 +0000
Subject: [PATCH 65/84] fix: members read by a cancelled analysis or without
 the expected definition were forgotten

---
 parser_library/src/context/hlasm_context.cpp         |  2 ++
 parser_library/src/context/hlasm_context.h           |  1 +
 .../src/workspaces/processor_file_impl.cpp           | 12 +++++++-----
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/parser_library/src/context/hlasm_context.cpp b/parser_library/src/context/hlasm_context.cpp
index 6285f6a..2c95fbe 100644
--- a/parser_library/src/context/hlasm_context.cpp
+++ b/parser_library/src/context/hlasm_context.cpp
@@ -732,6 +732,8 @@ const std::string& hlasm_context::opencode_file_name() const { return opencode_f
 
 const std::set<std::string>& hlasm_context::get_visited_files() { return visited_files_; }
 
+void hlasm_context::add_visited_file(std::string file_name) { visited_files_.insert(std::move(file_name)); }
+
 copy_member_ptr hlasm_context::add_copy_member(
     id_index member, statement_block definition, location definition_location)
 {
diff --git a/parser_library/src/context/hlasm_context.h b/parser_library/src/context/hlasm_context.h
index 7f8ddb2..ebcd0e7 100644
--- a/parser_library/src/context/hlasm_context.h
+++ b/parser_library/src/context/hlasm_context.h
@@ -91,6 +91,7 @@ public:
     const std::string& opencode_file_name() const;
     // accesses visited files
     const std::set<std::string>& get_visited_files();
+    void add_visited_file(std::string file_name);
 
     // gets current source
     const source_context& current_source() const;
diff --git a/parser_library/src/workspaces/processor_file_impl.cpp b/parser_library/src/workspaces/processor_file_impl.cpp
index 27a7cd2..9d3de3f 100644
--- a/parser_library/src/workspaces/processor_file_impl.cpp
+++ b/parser_library/src/workspaces/processor_file_impl.cpp
@@ -48,13 +48,12 @@ parse_result processor_file_impl::parse(parse_lib_provider& lib_provider)
 
     auto res = parse_inner(*analyzer_);
 
+    // files read by a cancelled analysis are added, it may not have reached all of them
     if (!cancel_ || !*cancel_)
-    {
         dependencies_.clear();
-        for (auto& file : analyzer_->hlasm_ctx().get_visited_files())
-            if (file != get_file_name())
-                dependencies_.insert(file);
-    }
+    for (auto& file : analyzer_->hlasm_ctx().get_visited_files())
+        if (file != get_file_name())
+            dependencies_.insert(file);
 
     files_to_close_.clear();
     // files that used to be dependencies but are not anymore should be closed internally
@@ -71,6 +70,9 @@ parse_result processor_file_impl::parse(parse_lib_provider& lib_provider)
 parse_result processor_file_impl::parse_macro(
     parse_lib_provider& lib_provider, analyzing_context ctx, const library_data data)
 {
+    // the member is used, whether or not it defines what is expected of it
+    ctx.hlasm_ctx->add_visited_file(get_file_name());
+
     analyzer_ =
         std::make_unique<analyzer>(get_text(), get_file_name(), std::move(ctx), lib_provider, data, get_lsp_editing());
 
-- 
2.43.0


From b35ef5a7b00c45c1a8c3664f0797bd9a17880cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:21 +0000
Subject: [PATCH 66/84] fix: a cancelled analysis replaced complete results of
 members shared with other programs

---
 .../src/workspaces/processor_file_impl.cpp    | 29 ++++++++++++++-----
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/parser_library/src/workspaces/processor_file_impl.cpp b/parser_library/src/workspaces/processor_file_impl.cpp
index 9d3de3f..e4fac73 100644
--- a/parser_library/src/workspaces/processor_file_impl.cpp
+++ b/parser_library/src/workspaces/processor_file_impl.cpp
@@ -42,16 +42,16 @@ bool processor_file_impl::is_once_only() const { return false; }
 
 parse_result processor_file_impl::parse(parse_lib_provider& lib_provider)
 {
-    analyzer_ = std::make_unique<analyzer>(get_text(), get_file_name(), lib_provider, get_lsp_editing());
+    auto new_analyzer = std::make_unique<analyzer>(get_text(), get_file_name(), lib_provider, get_lsp_editing());
 
     auto old_dep = dependencies_;
 
-    auto res = parse_inner(*analyzer_);
+    auto res = parse_inner(*new_analyzer);
 
     // files read by a cancelled analysis are added, it may not have reached all of them
     if (!cancel_ || !*cancel_)
         dependencies_.clear();
-    for (auto& file : analyzer_->hlasm_ctx().get_visited_files())
+    for (auto& file : new_analyzer->hlasm_ctx().get_visited_files())
         if (file != get_file_name())
             dependencies_.insert(file);
 
@@ -63,6 +63,9 @@ parse_result processor_file_impl::parse(parse_lib_provider& lib_provider)
             files_to_close_.insert(file);
     }
 
+    if (res)
+        analyzer_ = std::move(new_analyzer);
+
     return res;
 }
 
@@ -73,10 +76,14 @@ parse_result processor_file_impl::parse_macro(
     // the member is used, whether or not it defines what is expected of it
     ctx.hlasm_ctx->add_visited_file(get_file_name());
 
-    analyzer_ =
+    auto new_analyzer =
         std::make_unique<analyzer>(get_text(), get_file_name(), std::move(ctx), lib_provider, data, get_lsp_editing());
 
-    return parse_inner(*analyzer_);
+    if (!parse_inner(*new_analyzer))
+        return false;
+
+    analyzer_ = std::move(new_analyzer);
+    return true;
 }
 
 parse_result processor_file_impl::parse_no_lsp_update(
@@ -119,18 +126,24 @@ const performance_metrics& processor_file_impl::get_metrics()
 
 bool processor_file_impl::parse_inner(analyzer& new_analyzer)
 {
-    diags().clear();
+    diagnostic_container previous_diags;
+    previous_diags.swap(diags());
 
     new_analyzer.analyze(cancel_);
 
+    // the previous results stay until an analysis completes
+    if (cancel_ && *cancel_)
+    {
+        previous_diags.swap(diags());
+        return false;
+    }
+
     collect_diags_from_child(new_analyzer);
 
     // collect semantic info if the file is open in IDE
     if (get_lsp_editing())
         parse_info_updated_ = true;
 
-    if (cancel_ && *cancel_)
-        return false;
     return true;
 }
 
-- 
2.43.0


From 5a0f560f03acb84320ff814665c0fa3f75754232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:06 +0000
Subject: [PATCH 67/84] fix: a plus sign in a program name with wildcards
 matched any text

---
 parser_library/src/workspaces/wildcard.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser_library/src/workspaces/wildcard.cpp b/parser_library/src/workspaces/wildcard.cpp
index 1d9c232..b34b9a5 100644
--- a/parser_library/src/workspaces/wildcard.cpp
+++ b/parser_library/src/workspaces/wildcard.cpp
@@ -19,9 +19,9 @@
 namespace hlasm_plugin::parser_library::workspaces {
 namespace {
 // used for wildcard to regex conversions
-const std::regex escape("(\\(|\\[|\\{|\\\\|\\^|\\-|\\=|\\$|\\!|\\||\\]|\\}|\\)|\\.)");
+const std::regex escape("(\\(|\\[|\\{|\\\\|\\^|\\-|\\=|\\$|\\!|\\||\\]|\\}|\\)|\\.|\\+)");
 const std::regex question("\\?");
-const std::regex nongreedy("(\\*|\\+)");
+const std::regex nongreedy("(\\*)");
 const std::regex slash("\\/");
 } // namespace
 
-- 
2.43.0


From 3bb9a2e8daa320e533cfb41e3b7e009eb39c7e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:33 +0000
Subject: [PATCH 68/84] fix: files were analysed in a workspace that does not
 contain them, and workspaces were never removed

---
 parser_library/src/workspace_manager_impl.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/parser_library/src/workspace_manager_impl.h b/parser_library/src/workspace_manager_impl.h
index 7b087d3..a79e2a0 100644
--- a/parser_library/src/workspace_manager_impl.h
+++ b/parser_library/src/workspace_manager_impl.h
@@ -54,7 +54,7 @@ public:
 
     void add_workspace(std::string name, std::string uri)
     {
-        auto ws = workspaces_.emplace(name, workspaces::workspace(uri, name, file_manager_, global_config_, cancel_));
+        auto ws = workspaces_.emplace(uri, workspaces::workspace(uri, name, file_manager_, global_config_, cancel_));
         ws.first->second.set_message_consumer(message_consumer_);
         ws.first->second.open();
 
@@ -214,8 +214,11 @@ private:
         workspaces::workspace* max_ws = nullptr;
         for (auto& ws : workspaces_)
         {
-            size_t match = prefix_match(document_uri, ws.second.uri());
-            if (match > max && match >= ws.first.size())
+            const auto& ws_uri = ws.second.uri();
+            size_t match = prefix_match(document_uri, ws_uri);
+            // the whole path of the workspace, up to the end of a directory
+            if (match > max && match == ws_uri.size()
+                && (is_separator(ws_uri.back()) || match == document_uri.size() || is_separator(document_uri[match])))
             {
                 max = match;
                 max_ws = &ws.second;
@@ -252,6 +255,8 @@ private:
         }
     }
 
+    static bool is_separator(char c) { return c == '/' || c == '\\'; }
+
     size_t prefix_match(const std::string& first, const std::string& second) const
     {
         size_t match = 0;
-- 
2.43.0


From 543e08a14e3f6d290a79d303ea751c05947b64e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:27 +0000
Subject: [PATCH 69/84] fix: crash on a created variable symbol without a name

---
 parser_library/src/parsing/grammar/ca_expr_rules.g4 | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parser_library/src/parsing/grammar/ca_expr_rules.g4 b/parser_library/src/parsing/grammar/ca_expr_rules.g4
index 50d81c0..11e1cac 100644
--- a/parser_library/src/parsing/grammar/ca_expr_rules.g4
+++ b/parser_library/src/parsing/grammar/ca_expr_rules.g4
@@ -213,7 +213,12 @@ created_set_symbol returns [vs_ptr vs]
 		collector.add_hl_symbol(token_info(provider.get_range( $AMPERSAND),hl_scopes::var_symbol));
 		$vs = std::make_unique<created_variable_symbol>(std::move($clc.concat_list),std::move($subscript.value),provider.get_range($AMPERSAND,$subscript.ctx->getStop()));
 	}
-	| ampersand lpar rpar subscript; 	//empty set symbol err TODO
+	| AMPERSAND lpar rpar subscript 	// no name, diagnosed when evaluated
+	{
+		$vs = std::make_unique<created_variable_symbol>(concat_chain {},std::move($subscript.value),provider.get_range($AMPERSAND,$subscript.ctx->getStop()));
+	};
+	finally
+	{if (!$vs) $vs = std::make_unique<created_variable_symbol>(concat_chain {}, std::vector<ca_expr_ptr> {}, provider.get_range(_localctx));}
 
 var_symbol returns [vs_ptr vs]
 	: AMPERSAND vs_id tmp=subscript
-- 
2.43.0


From ad36ed120e38c756a5445fad300225b5a3942be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:27 +0000
Subject: [PATCH 70/84] fix: crash on COPY with an operand that is not a name

---
 .../src/processing/instruction_sets/asm_processor.cpp        | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parser_library/src/processing/instruction_sets/asm_processor.cpp b/parser_library/src/processing/instruction_sets/asm_processor.cpp
index fa5276c..52f5eb4 100644
--- a/parser_library/src/processing/instruction_sets/asm_processor.cpp
+++ b/parser_library/src/processing/instruction_sets/asm_processor.cpp
@@ -556,8 +556,9 @@ void asm_processor::process_copy(const semantics::complete_statement& stmt,
     workspaces::parse_lib_provider& lib_provider,
     diagnosable_ctx* diagnoser)
 {
-    auto& expr = stmt.operands_ref().value.front()->access_asm()->access_expr()->expression;
-    auto sym_expr = dynamic_cast<expressions::mach_expr_symbol*>(expr.get());
+    auto asm_op = stmt.operands_ref().value.front()->access_asm();
+    auto expr_op = asm_op ? asm_op->access_expr() : nullptr;
+    auto sym_expr = expr_op ? dynamic_cast<expressions::mach_expr_symbol*>(expr_op->expression.get()) : nullptr;
 
     if (!sym_expr)
     {
-- 
2.43.0


From 857f385e8eafa4c7621e702051203f9135e53b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:44 +0000
Subject: [PATCH 71/84] fix: tokens starting with a character outside the basic
 plane were placed one column too far

---
 parser_library/src/lexing/lexer.cpp | 23 ++++-------------------
 parser_library/src/lexing/lexer.h   |  1 -
 2 files changed, 4 insertions(+), 20 deletions(-)

diff --git a/parser_library/src/lexing/lexer.cpp b/parser_library/src/lexing/lexer.cpp
index 9b1a44c..00f3509 100644
--- a/parser_library/src/lexing/lexer.cpp
+++ b/parser_library/src/lexing/lexer.cpp
@@ -187,8 +187,7 @@ void lexer::create_token(size_t ttype, size_t channel = Channels::DEFAULT_CHANNE
         token_start_state_.char_position_in_line_utf16,
         input_state_->char_position_in_line_utf16));
 
-    auto stop_position_in_line = last_char_utf16_long_ ? input_state_->char_position_in_line_utf16 - 1
-                                                       : input_state_->char_position_in_line_utf16;
+    auto stop_position_in_line = input_state_->char_position_in_line_utf16;
 
     if (src_proc_)
         switch (ttype)
@@ -232,24 +231,10 @@ void lexer::consume()
     {
         input_state_->input->consume();
         input_state_->char_position++;
-        input_state_->c = static_cast<char_t>(input_state_->input->LA(1));
-
         input_state_->char_position_in_line++;
-        if (input_state_->c == static_cast<char32_t>(-1))
-        {
-            last_char_utf16_long_ = false;
-            input_state_->char_position_in_line_utf16 += 1;
-        }
-        else if (input_state_->c > 0xFFFF)
-        {
-            last_char_utf16_long_ = true;
-            input_state_->char_position_in_line_utf16 += 2;
-        }
-        else
-        {
-            last_char_utf16_long_ = false;
-            input_state_->char_position_in_line_utf16++;
-        }
+        input_state_->char_position_in_line_utf16 += input_state_->c > 0xFFFF ? 2 : 1;
+
+        input_state_->c = static_cast<char_t>(input_state_->input->LA(1));
     }
 }
 
diff --git a/parser_library/src/lexing/lexer.h b/parser_library/src/lexing/lexer.h
index 75952f9..f9bfa6c 100644
--- a/parser_library/src/lexing/lexer.h
+++ b/parser_library/src/lexing/lexer.h
@@ -140,7 +140,6 @@ protected:
 
 private:
     bool eof_generated_ = false;
-    bool last_char_utf16_long_ = false;
     bool creating_var_symbol_ = false;
     bool creating_attr_ref_ = false;
     // insert string to the ainsert stream; to the front=True or to the end (front=False)
-- 
2.43.0


From eee6c42ac2c14b8a51cf97730603419a5b74359d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:44 +0000
Subject: [PATCH 72/84] fix: a non-ASCII character in the continuation column
 was looked up outside of the character table

---
 parser_library/src/lexing/lexer.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/parser_library/src/lexing/lexer.cpp b/parser_library/src/lexing/lexer.cpp
index 00f3509..2a6ebdc 100644
--- a/parser_library/src/lexing/lexer.cpp
+++ b/parser_library/src/lexing/lexer.cpp
@@ -53,6 +53,11 @@ lexer::lexer(input_source* input, semantics::source_info_processor* lsp_proc, pe
     dummy_factory = make_shared<antlr4::CommonTokenFactory>();
 }
 
+namespace {
+// isspace is defined only for single-byte characters
+bool is_space_char(char32_t c) { return c <= 255 && isspace(static_cast<int>(c)); }
+} // namespace
+
 void lexer::rewind_input(stream_position pos)
 {
     auto inp = file_input_state_.input;
@@ -300,7 +305,7 @@ token_ptr lexer::nextToken()
         else if (double_byte_enabled_)
             check_continuation();
 
-        else if (!unlimited_line_ && input_state_->char_position_in_line == end_ && !isspace(input_state_->c)
+        else if (!unlimited_line_ && input_state_->char_position_in_line == end_ && !is_space_char(input_state_->c)
             && continuation_enabled_ && (!from_buffer() || !ainsert_buffer_.empty()))
             lex_continuation();
 
@@ -505,7 +510,7 @@ void lexer::lex_comment()
             consume();
         create_token(COMMENT, HIDDEN_CHANNEL);
 
-        if (!isspace(input_state_->c) && !eof() && continuation_enabled_)
+        if (!is_space_char(input_state_->c) && !eof() && continuation_enabled_)
             lex_continuation();
         else
         {
@@ -559,7 +564,7 @@ void lexer::check_continuation()
         return;
 
     auto cc = input_->LA(end_default_ + 1);
-    if (cc != CharStream::EOF && !isspace(static_cast<int>(cc)))
+    if (cc != CharStream::EOF && !is_space_char(static_cast<char32_t>(cc)))
     {
         do
         {
-- 
2.43.0


From 889fa77613df8f645a3b45f1d7c0df5114dfc227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:10 +0000
Subject: [PATCH 73/84] fix: ranges of operands with characters outside the
 basic plane, and a crash in macro calls with them

---
 .../src/semantics/range_provider.cpp           | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/parser_library/src/semantics/range_provider.cpp b/parser_library/src/semantics/range_provider.cpp
index 9cf7b02..9206bc5 100644
--- a/parser_library/src/semantics/range_provider.cpp
+++ b/parser_library/src/semantics/range_provider.cpp
@@ -14,6 +14,8 @@
 
 #include "range_provider.h"
 
+#include "lexing/token.h"
+
 using namespace hlasm_plugin::parser_library;
 using namespace hlasm_plugin::parser_library::semantics;
 
@@ -34,6 +36,18 @@ range range_provider::union_range(const range& lhs, const range& rhs)
     return range(ret[0], ret[1]);
 }
 
+namespace {
+// in UTF-16 units, as all columns
+size_t end_column(const antlr4::Token* stop)
+{
+    if (auto t = dynamic_cast<const lexing::token*>(stop);
+        t && t->getStopIndex() != (size_t)-1
+        && t->get_end_of_token_in_line_utf16() > t->get_char_position_in_line_16())
+        return t->get_end_of_token_in_line_utf16();
+    return stop->getCharPositionInLine() + stop->getStopIndex() - stop->getStartIndex() + 1;
+}
+} // namespace
+
 range range_provider::get_range(const antlr4::Token* start, const antlr4::Token* stop)
 {
     range ret;
@@ -44,7 +58,7 @@ range range_provider::get_range(const antlr4::Token* start, const antlr4::Token*
     if (stop)
     {
         ret.end.line = stop->getLine();
-        ret.end.column = stop->getCharPositionInLine() + stop->getStopIndex() - stop->getStartIndex() + 1;
+        ret.end.column = end_column(stop);
     }
     else // empty rule
     {
@@ -94,7 +108,7 @@ position range_provider::adjust_position(position pos)
             auto tmp_lines = orig_range.end.line - orig_range.start.line;
             auto tmp_cols = (orig_range.end.column + 72 * tmp_lines) - orig_range.start.column;
 
-            if (tmp_cols >= offset)
+            if (tmp_cols >= offset || idx == original_operand_ranges.size())
                 break;
             else
             {
-- 
2.43.0


From 536a5b06849e61581c661de555280579d42d309c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:23 +0000
Subject: [PATCH 74/84] fix: crash of the occurrence collector on COPY with an
 operand that is not a name

---
 .../src/processing/statement_analyzers/lsp_analyzer.cpp        | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser_library/src/processing/statement_analyzers/lsp_analyzer.cpp b/parser_library/src/processing/statement_analyzers/lsp_analyzer.cpp
index 7ae4f19..5ea7e2e 100644
--- a/parser_library/src/processing/statement_analyzers/lsp_analyzer.cpp
+++ b/parser_library/src/processing/statement_analyzers/lsp_analyzer.cpp
@@ -260,7 +260,8 @@ void lsp_analyzer::collect_copy_operands(const context::hlasm_statement& stateme
         return;
 
     if (res_stmt->opcode_ref().value == hlasm_ctx_.ids().add("COPY") && res_stmt->operands_ref().value.size() == 1
-        && res_stmt->operands_ref().value.front()->access_asm())
+        && res_stmt->operands_ref().value.front()->access_asm()
+        && res_stmt->operands_ref().value.front()->access_asm()->access_expr())
     {
         auto sym_expr = dynamic_cast<expressions::mach_expr_symbol*>(
             res_stmt->operands_ref().value.front()->access_asm()->access_expr()->expression.get());
-- 
2.43.0


From 2844f33d57b4b236abdefda646e409c9f0730f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:39 +0000
Subject: [PATCH 75/84] fix: endless analysis when AINSERT is in the last line
 without a line end

---
 parser_library/src/lexing/lexer.cpp | 13 +++++++++----
 parser_library/src/lexing/lexer.h   |  2 ++
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/parser_library/src/lexing/lexer.cpp b/parser_library/src/lexing/lexer.cpp
index 2a6ebdc..fb549f6 100644
--- a/parser_library/src/lexing/lexer.cpp
+++ b/parser_library/src/lexing/lexer.cpp
@@ -66,6 +66,7 @@ void lexer::rewind_input(stream_position pos)
         pos.offset = input_->size() - 1;
 
     inp->rewind_input(pos.offset);
+    file_lln_end_ = pos.offset;
     eof_generated_ = false;
 
     if (!token_queue_.empty())
@@ -284,7 +285,11 @@ token_ptr lexer::nextToken()
         {
             auto t = move(token_queue_.front());
             if (t->getType() == EOLLN)
+            {
                 set_last_line_pos(t->getStopIndex() + 1, t->getLine());
+                if (t->getInputStream() == file_input_state_.input)
+                    file_lln_end_ = t->getStopIndex() + 1;
+            }
             token_queue_.pop();
             return t;
         }
@@ -839,10 +844,10 @@ void lexer::ainsert(const std::string& inp, bool front)
         else
             ainsert_buffer_.push_back(str);
 
-        if (file_input_state_.char_position_in_line)
-            rewind_input(stream_position { file_input_state_.line,
-                file_input_state_.char_position
-                    - file_input_state_.char_position_in_line }); // make sure we read the WHOLE line
+        // make sure we read the WHOLE line, unless it is the last one and already processed
+        if (const auto line_start = file_input_state_.char_position - file_input_state_.char_position_in_line;
+            file_input_state_.char_position_in_line && line_start >= file_lln_end_)
+            rewind_input(stream_position { file_input_state_.line, line_start });
 
         while (token_queue_.size())
             token_queue_.pop();
diff --git a/parser_library/src/lexing/lexer.h b/parser_library/src/lexing/lexer.h
index f9bfa6c..272180d 100644
--- a/parser_library/src/lexing/lexer.h
+++ b/parser_library/src/lexing/lexer.h
@@ -140,6 +140,8 @@ protected:
 
 private:
     bool eof_generated_ = false;
+    // offset in the file behind the last logical line that was handed over
+    size_t file_lln_end_ = 0;
     bool creating_var_symbol_ = false;
     bool creating_attr_ref_ = false;
     // insert string to the ainsert stream; to the front=True or to the end (front=False)
-- 
2.43.0


From bdfe3d371d111a838fe3fbe1672d46fcefbdc908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:50 +0000
Subject: [PATCH 76/84] fix: read outside of the statements of an unfinished
 macro that ends with an inner one

---
 parser_library/src/lsp/file_info.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser_library/src/lsp/file_info.cpp b/parser_library/src/lsp/file_info.cpp
index e0ec779..0b28094 100644
--- a/parser_library/src/lsp/file_info.cpp
+++ b/parser_library/src/lsp/file_info.cpp
@@ -119,10 +119,12 @@ file_slice_t file_slice_t::transform_slice(const macro_slice_t& slice, macro_inf
 
     if (slice.begin_statement == 0)
         fslice.file_lines.begin = macro_i->definition_location.pos.line;
+    else if (slice.begin_statement >= macro_i->macro_definition->copy_nests.size()) // nothing after an inner macro
+        fslice.file_lines.begin = macro_i->macro_definition->copy_nests.back().back().pos.line + 1;
     else
         fslice.file_lines.begin = macro_i->macro_definition->copy_nests[fslice.macro_lines.begin].back().pos.line;
 
-    if (slice.end_statement == macro_i->macro_definition->copy_nests.size())
+    if (slice.end_statement >= macro_i->macro_definition->copy_nests.size())
         fslice.file_lines.end = macro_i->macro_definition->copy_nests.back().back().pos.line + 1;
     else
         fslice.file_lines.end = macro_i->macro_definition->copy_nests[fslice.macro_lines.end].back().pos.line;
-- 
2.43.0


From ddeb187640bc223883713d99b732e965d2524484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:45 +0000
Subject: [PATCH 77/84] fix: comments and ignored fields were highlighted past
 the end of lines with CR LF or wide characters

---
 parser_library/src/lexing/lexer.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parser_library/src/lexing/lexer.cpp b/parser_library/src/lexing/lexer.cpp
index fb549f6..f0180c4 100644
--- a/parser_library/src/lexing/lexer.cpp
+++ b/parser_library/src/lexing/lexer.cpp
@@ -496,7 +496,7 @@ void lexer::lex_end(bool eolln)
 
     if (!eof())
     {
-        last_line_pos_ = input_state_->char_position_in_line;
+        last_line_pos_ = input_state_->char_position_in_line_utf16;
         consume();
         if (eolln)
             create_token(EOLLN);
@@ -511,7 +511,8 @@ void lexer::lex_comment()
     while (true)
     {
         start_token();
-        while (input_state_->char_position_in_line < end_ && !eof() && input_state_->c != '\n')
+        while (input_state_->char_position_in_line < end_ && !eof() && input_state_->c != '\n'
+            && !(input_state_->c == '\r' && input_state_->input->LA(2) == '\n'))
             consume();
         create_token(COMMENT, HIDDEN_CHANNEL);
 
-- 
2.43.0


From 369362302c98bdd24c13a4921d7968abfb66a390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:47 +0000
Subject: [PATCH 78/84] fix: columns in data definitions with non-ASCII
 characters, and highlighting of the line end

---
 parser_library/src/expressions/data_definition.cpp | 5 +++--
 parser_library/src/lexing/lexer.cpp                | 7 +++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/parser_library/src/expressions/data_definition.cpp b/parser_library/src/expressions/data_definition.cpp
index b12226e..fb191a7 100644
--- a/parser_library/src/expressions/data_definition.cpp
+++ b/parser_library/src/expressions/data_definition.cpp
@@ -630,8 +630,9 @@ data_definition data_definition::parser::parse()
             auto begin_pos = pos_;
             while (p_ < format_.size() && !is_modifier_or_prog(format_[p_]) && format_[p_] != nominal_placeholder[0])
             {
-                ++p_;
-                update_position_by_one();
+                // columns are counted in UTF-16 units, the text is in UTF-8
+                const auto c = (unsigned char)format_[p_++];
+                pos_.column += c >= 0xF0 ? 2 : (c < 0x80 || c >= 0xC0) ? 1 : 0;
             }
 
             result_.add_diagnostic(diagnostic_op::error_D006({ begin_pos, pos_ }));
diff --git a/parser_library/src/lexing/lexer.cpp b/parser_library/src/lexing/lexer.cpp
index f0180c4..a092ad6 100644
--- a/parser_library/src/lexing/lexer.cpp
+++ b/parser_library/src/lexing/lexer.cpp
@@ -491,12 +491,15 @@ void lexer::lex_begin()
 void lexer::lex_end(bool eolln)
 {
     start_token();
-    while (input_state_->c != '\n' && !eof() && input_state_->c != (char_t)-1)
+    while (input_state_->c != '\n' && !eof() && input_state_->c != (char_t)-1
+        && !(input_state_->c == '\r' && input_state_->input->LA(2) == '\n'))
         consume();
 
     if (!eof())
     {
-        last_line_pos_ = input_state_->char_position_in_line_utf16;
+        last_line_pos_ = input_state_->char_position_in_line_utf16; // without the line end
+        if (input_state_->c == '\r')
+            consume();
         consume();
         if (eolln)
             create_token(EOLLN);
-- 
2.43.0


From 2b3d943f9d73e9e7138950965c821251c1f2351e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:30 +0000
Subject: [PATCH 79/84] fix: a statement without an operation name, such as an
 apostrophe, swallowed the rest of the file

---
 parser_library/src/parsing/error_strategy.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/parser_library/src/parsing/error_strategy.h b/parser_library/src/parsing/error_strategy.h
index 955a75d..ac0e9a1 100644
--- a/parser_library/src/parsing/error_strategy.h
+++ b/parser_library/src/parsing/error_strategy.h
@@ -61,6 +61,15 @@ class error_strategy : public antlr4::DefaultErrorStrategy
         }
     }
 
+    // reportError skips the rest of the statement, the next one must not be skipped
+    void recover(antlr4::Parser* recognizer, std::exception_ptr) override
+    {
+        antlr4::misc::IntervalSet endTokens;
+
+        endTokens.addItems(tokens::EOLLN);
+        consumeUntil(recognizer, endTokens);
+    }
+
     antlr4::Token* getMissingSymbol(antlr4::Parser* recognizer) override
     {
         using namespace antlr4;
-- 
2.43.0


From 1eff48a306dbfd5acacb6cb35a30d116e7878caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:30 +0000
Subject: [PATCH 80/84] fix: variable symbols in strings of conditional
 assembly had no definition or references

---
 .../processing/statement_analyzers/occurence_collector.cpp   | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser_library/src/processing/statement_analyzers/occurence_collector.cpp b/parser_library/src/processing/statement_analyzers/occurence_collector.cpp
index a4d97e1..d8ee566 100644
--- a/parser_library/src/processing/statement_analyzers/occurence_collector.cpp
+++ b/parser_library/src/processing/statement_analyzers/occurence_collector.cpp
@@ -202,6 +202,11 @@ void occurence_collector::visit(const expressions::ca_string& expr)
 {
     if (expr.duplication_factor)
         expr.duplication_factor->apply(*this);
+    get_occurence(expr.value);
+    if (expr.substring.start)
+        expr.substring.start->apply(*this);
+    if (expr.substring.count)
+        expr.substring.count->apply(*this);
 }
 
 void occurence_collector::visit(const expressions::ca_symbol& expr) { get_occurence(expr.symbol, expr.expr_range); }
-- 
2.43.0


From 6704cd29d46b77eac046a4e6c66ef594bc6e13d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:10 +0000
Subject: [PATCH 81/84] fix: a message with text that is not valid UTF-8 was
 lost

---
 language_server/src/base_protocol_channel.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/language_server/src/base_protocol_channel.cpp b/language_server/src/base_protocol_channel.cpp
index 45f0c2b..44effee 100644
--- a/language_server/src/base_protocol_channel.cpp
+++ b/language_server/src/base_protocol_channel.cpp
@@ -50,9 +50,17 @@ void base_protocol_channel::write_message(const std::string& in)
     output.flush();
 }
 
-void base_protocol_channel::write(const nlohmann::json& message) { write_message(message.dump()); }
+namespace {
+// texts that are not valid UTF-8 (parts of characters cut by the assembled program) must not prevent the message
+std::string serialize(const nlohmann::json& message)
+{
+    return message.dump(-1, ' ', false, nlohmann::json::error_handler_t::replace);
+}
+} // namespace
+
+void base_protocol_channel::write(const nlohmann::json& message) { write_message(serialize(message)); }
 
-void base_protocol_channel::write(nlohmann::json&& message) { write_message(message.dump()); }
+void base_protocol_channel::write(nlohmann::json&& message) { write_message(serialize(message)); }
 
 bool base_protocol_channel::read_message(std::string& out)
 {
-- 
2.43.0


From 23d20fd7df57769e403ec583cc1b97e05d578594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:10 +0000
Subject: [PATCH 82/84] fix: percent signs in file names were not encoded in
 URIs

---
 language_server/src/feature.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/language_server/src/feature.cpp b/language_server/src/feature.cpp
index 3b92ce9..7889bb5 100644
--- a/language_server/src/feature.cpp
+++ b/language_server/src/feature.cpp
@@ -82,9 +82,9 @@ std::string feature::path_to_uri(std::string_view path)
 
     for (char c : path)
     {
-        if (c == '\\')
+        if (c == '\\' && utils::platform::is_windows())
             c = '/';
-        network::detail::encode_char(c, out, "/.%;=");
+        network::detail::encode_char(c, out, "/.;=");
     }
 
     if (utils::platform::is_windows())
-- 
2.43.0


From d1a725ce19f101f87aa5a5744beb7c6a5e90e01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:10 +0000
Subject: [PATCH 83/84] fix: substituted text with a part of a character ended
 the analysis with an exception

---
 parser_library/src/lexing/input_source.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/parser_library/src/lexing/input_source.cpp b/parser_library/src/lexing/input_source.cpp
index f3a9741..a825260 100644
--- a/parser_library/src/lexing/input_source.cpp
+++ b/parser_library/src/lexing/input_source.cpp
@@ -16,6 +16,8 @@
 
 #include <exception>
 
+#include "workspaces/file_impl.h"
+
 namespace hlasm_plugin::parser_library::lexing {
 
 
@@ -28,10 +30,15 @@ void input_source::append(const UTF32String& str) { _data.append(str); }
 void input_source::append(const std::string& str)
 {
     p = _data.size();
-    _data.append(antlrcpp::utf8_to_utf32(str.data(), str.data() + str.size()));
+    const auto valid = workspaces::file_impl::replace_non_utf8_chars(str);
+    _data.append(antlrcpp::utf8_to_utf32(valid.data(), valid.data() + valid.size()));
 }
 
-void input_source::reset(const std::string& str) { load(str); }
+void input_source::reset(const std::string& str) 
+{
+    // substituted text may contain parts of characters
+    load(workspaces::file_impl::replace_non_utf8_chars(str));
+}
 
 std::string input_source::getText(const antlr4::misc::Interval& interval)
 {
-- 
2.43.0


From d6bf24c3a65250c59bee9f97f5dfeff63dabdb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:59 +0000
Subject: [PATCH 84/84] fix: syntax errors in substituted text were located by
 its columns, outside of the statement

---
 parser_library/src/parsing/parser_impl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser_library/src/parsing/parser_impl.cpp b/parser_library/src/parsing/parser_impl.cpp
index 4278dd8..38c8416 100644
--- a/parser_library/src/parsing/parser_impl.cpp
+++ b/parser_library/src/parsing/parser_impl.cpp
@@ -125,7 +125,7 @@ std::pair<semantics::operands_si, semantics::remarks_si> parser_impl::parse_oper
     std::optional<std::string> sub;
     if (after_substitution)
         sub = field;
-    parser_error_listener_ctx listener(*hlasm_ctx, std::move(sub));
+    parser_error_listener_ctx listener(*hlasm_ctx, std::move(sub), field_range);
 
     h.input->reset(field);
 
-- 
2.43.0

