From 727df82b71bf7766b296c1a40f06067994f62af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:09 +0000
Subject: [PATCH 01/49] fix: initialise still_in_block in the main grammar

set_scoped_value saves and restores the member before anything has been
assigned to it, so it read (and copied) an indeterminate bool.
---
 src/main_grammar.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main_grammar.cpp b/src/main_grammar.cpp
index 6d9368f..e18161d 100644
--- a/src/main_grammar.cpp
+++ b/src/main_grammar.cpp
@@ -153,6 +153,7 @@ namespace quickbook
             , no_eols(true)
             , context(element_info::in_top_level)
             , mark('\0')
+            , still_in_block(false)
             , state_(state)
         {
         }
-- 
2.43.0


From 60083192ce2844fe6add09d74ebadab48d3a563c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:08 +0000
Subject: [PATCH 02/49] fix: percent-escape non-ASCII bytes in URIs

The escape was computed from a signed char, so any byte above 127 indexed
the digit table with a negative number.
---
 src/utils.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 3a6b058..67c9d69 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -188,15 +188,15 @@ namespace quickbook
             uri.reserve(uri_param.size());
 
             for (std::string::size_type n = 0; n < uri_param.size(); ++n) {
-                if (static_cast<unsigned char>(uri_param[n]) > 127 ||
-                    (!std::isalnum(static_cast<unsigned char>(uri_param[n])) &&
+                unsigned char const c = static_cast<unsigned char>(uri_param[n]);
+                if (c > 127 ||
+                    (!std::isalnum(c) &&
                      !std::strchr(mark, uri_param[n])) ||
                     (uri_param[n] == '%' &&
                      !(n + 2 < uri_param.size() &&
                        std::strchr(hex, uri_param[n + 1]) &&
                        std::strchr(hex, uri_param[n + 2])))) {
-                    char escape[] = {'%', hex[uri_param[n] / 16],
-                                     hex[uri_param[n] % 16], '\0'};
+                    char escape[] = {'%', hex[c / 16], hex[c % 16], '\0'};
                     uri += escape;
                 }
                 else {
-- 
2.43.0


From 92f81e226eca162d5429b9f3ff5357ee66fc42f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:08 +0000
Subject: [PATCH 03/49] fix: ignore unterminated width and height attributes in
 SVG images

Without a closing quote the attribute's end was std::string::npos, and a
string was built from an invalid iterator range.
---
 src/actions.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/actions.cpp b/src/actions.cpp
index e53bbde..bb9a9e0 100644
--- a/src/actions.cpp
+++ b/src/actions.cpp
@@ -1009,7 +1009,7 @@ namespace quickbook
             a = svg_text.find('=', a);
             a = svg_text.find('\"', a);
             b = svg_text.find('\"', a + 1);
-            if (a != std::string::npos) {
+            if (a != std::string::npos && b != std::string::npos) {
                 attributes.insert(std::make_pair(
                     "contentwidth", encoded_value(std::string(
                                         boost::next(svg_text.begin(), a + 1),
@@ -1019,7 +1019,7 @@ namespace quickbook
             a = svg_text.find('=', a);
             a = svg_text.find('\"', a);
             b = svg_text.find('\"', a + 1);
-            if (a != std::string::npos) {
+            if (a != std::string::npos && b != std::string::npos) {
                 attributes.insert(std::make_pair(
                     "contentdepth", encoded_value(std::string(
                                         boost::next(svg_text.begin(), a + 1),
-- 
2.43.0


From 5a3c6992f1a94743ccc4abe05dffb68ac44e2cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:08 +0000
Subject: [PATCH 04/49] fix: accept --output-dir for chunked output

The case fell through to the error for file output.
---
 src/quickbook.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/quickbook.cpp b/src/quickbook.cpp
index cc8fe0d..8e6e083 100644
--- a/src/quickbook.cpp
+++ b/src/quickbook.cpp
@@ -623,6 +623,7 @@ int main(int argc, char* argv[])
                             << std::endl;
                         ++error_count;
                     }
+                    break;
                 }
                 case quickbook::parse_document_options::output_file:
                     quickbook::detail::outerr()
-- 
2.43.0


From eb4c096333f4bd762ed750ae2f6a53a7866065c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:08 +0000
Subject: [PATCH 05/49] fix: don't read past the end of a glob that ends with
 '['

---
 src/glob.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glob.cpp b/src/glob.cpp
index 70089fb..cff30a7 100644
--- a/src/glob.cpp
+++ b/src/glob.cpp
@@ -80,7 +80,7 @@ namespace quickbook
         assert(begin != end && *begin == '[');
         ++begin;
 
-        if (*begin == ']') throw glob_error("empty range");
+        if (begin != end && *begin == ']') throw glob_error("empty range");
 
         while (begin != end) {
             switch (*begin) {
-- 
2.43.0


From 7755c5ab73bed0313b2e6aeddb43ae620f47aaaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:51 +0000
Subject: [PATCH 06/49] fix: report output that could not be written out

The status of the output stream was checked before its buffer had been
flushed, so a full disk went unnoticed for small documents.
---
 src/bb2html.cpp   | 1 +
 src/quickbook.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/bb2html.cpp b/src/bb2html.cpp
index 44c8e75..ceb00bb 100644
--- a/src/bb2html.cpp
+++ b/src/bb2html.cpp
@@ -724,6 +724,7 @@ namespace quickbook
             }
 
             fileout << html;
+            fileout.close();
 
             if (fileout.fail()) {
                 ::quickbook::detail::outerr(path)
diff --git a/src/quickbook.cpp b/src/quickbook.cpp
index 8e6e083..b1f7b03 100644
--- a/src/quickbook.cpp
+++ b/src/quickbook.cpp
@@ -240,6 +240,7 @@ namespace quickbook
                 }
 
                 fileout << stage2;
+                fileout.close();
 
                 if (fileout.fail()) {
                     ::quickbook::detail::outerr()
-- 
2.43.0


From 4780b89c7c34a9b1c00fdec664d744385102f721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:44 +0000
Subject: [PATCH 07/49] fix: allow a file to be used with different quickbook
 versions

A file that doesn't specify its version, and is included from files
with different versions, hit an assertion in file::version.
---
 src/files.cpp | 13 +++++++++++++
 src/files.hpp |  2 ++
 2 files changed, 15 insertions(+)

diff --git a/src/files.cpp b/src/files.cpp
index 2a1b033..7b95962 100644
--- a/src/files.cpp
+++ b/src/files.cpp
@@ -24,6 +24,7 @@ namespace quickbook
     namespace
     {
         boost::unordered_map<fs::path, file_ptr> files;
+        std::vector<file_ptr> file_copies;
     }
 
     // Read the first few bytes in a file to see it starts with a byte order
@@ -134,6 +135,18 @@ namespace quickbook
 
             assert(inserted);
         }
+        else if (
+            pos->second->has_version() &&
+            pos->second->version() != qbk_version) {
+            // The same file can be used with different versions of quickbook
+            // (e.g. when it doesn't specify a version and is included from
+            // several files), so don't change the version of the existing
+            // copy.
+            file_ptr copy =
+                new file(filename, pos->second->source(), qbk_version);
+            file_copies.push_back(copy);
+            return copy;
+        }
 
         return pos->second;
     }
diff --git a/src/files.hpp b/src/files.hpp
index 4ff669d..9a2ef41 100644
--- a/src/files.hpp
+++ b/src/files.hpp
@@ -90,6 +90,8 @@ namespace quickbook
 
         virtual ~file() { assert(!ref_count); }
 
+        bool has_version() const { return qbk_version != 0; }
+
         unsigned version() const
         {
             assert(qbk_version);
-- 
2.43.0


From ff06ab13e53992b1dee1b24495e46fb4504e63a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:28 +0000
Subject: [PATCH 08/49] fix: diagnose files that include themselves

Unlimited recursion caused a stack overflow, so limit the include
depth in the same way as the template depth.
---
 src/actions.cpp    | 18 ++++++++++++++++++
 src/state.cpp      |  4 ++++
 src/state.hpp      |  3 +++
 src/state_save.hpp |  1 +
 4 files changed, 26 insertions(+)

diff --git a/src/actions.cpp b/src/actions.cpp
index bb9a9e0..ac6f640 100644
--- a/src/actions.cpp
+++ b/src/actions.cpp
@@ -1815,6 +1815,7 @@ namespace quickbook
                     : qbk_version_n >= 106u ? state_save::scope_callables
                                             : state_save::scope_macros);
 
+            ++state.include_depth;
             state.current_file = load(path.file_path); // Throws load_error
             state.current_path = path;
             state.imported = (load_type == block_tags::import);
@@ -1892,6 +1893,23 @@ namespace quickbook
         path_parameter parameter = check_path(values.consume(), state);
         values.finish();
 
+        if (state.include_depth >= state.max_include_depth) {
+            // Only report the error once, as a file that includes itself
+            // several times would otherwise generate a huge number of errors.
+            if (!state.infinite_loop) {
+                state.infinite_loop = true;
+                ++state.error_count;
+
+                detail::outerr(state.current_file, first)
+                    << "Infinite loop detected" << std::endl;
+            }
+            return;
+        }
+
+        // After an infinite loop has been detected, there's no point in
+        // including more files.
+        if (state.infinite_loop) return;
+
         std::set<quickbook_path> search =
             include_search(parameter, state, first);
         QUICKBOOK_FOR (quickbook_path const& path, search) {
diff --git a/src/state.cpp b/src/state.cpp
index 04ff6a6..3bd0658 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -50,6 +50,7 @@ namespace quickbook
         , dependencies()
         , explicit_list(false)
         , strict_mode(false)
+        , infinite_loop(false)
 
         , imported(false)
         , macro()
@@ -58,6 +59,7 @@ namespace quickbook
         , source_mode_next_pos()
         , current_file(0)
         , current_path(filein_, 0, filein_.filename())
+        , include_depth(0)
 
         , template_depth(0)
         , min_section_level(1)
@@ -156,6 +158,7 @@ namespace quickbook
         , xinclude_base(state.xinclude_base)
         , source_mode(state.source_mode)
         , macro()
+        , include_depth(state.include_depth)
         , template_depth(state.template_depth)
         , min_section_level(state.min_section_level)
     {
@@ -181,6 +184,7 @@ namespace quickbook
         }
         if (scope & scope_templates) state.templates.pop();
         if (scope & scope_macros) state.macro = macro;
+        boost::core::invoke_swap(state.include_depth, include_depth);
         boost::core::invoke_swap(state.template_depth, template_depth);
         boost::core::invoke_swap(state.min_section_level, min_section_level);
     }
diff --git a/src/state.hpp b/src/state.hpp
index 022d262..b5cbd8b 100644
--- a/src/state.hpp
+++ b/src/state.hpp
@@ -45,6 +45,7 @@ namespace quickbook
         typedef std::vector<std::string> string_list;
 
         static int const max_template_depth = 100;
+        static int const max_include_depth = 50;
 
         // global state
         unsigned order_pos;
@@ -60,6 +61,7 @@ namespace quickbook
         dependency_tracker dependencies;
         bool explicit_list; // set when using a list
         bool strict_mode;
+        bool infinite_loop; // set when templates or files nest endlessly
 
         // state saved for files and templates.
         bool imported;
@@ -70,6 +72,7 @@ namespace quickbook
         std::vector<source_mode_info> tagged_source_mode_stack;
         file_ptr current_file;
         quickbook_path current_path;
+        int include_depth;
 
         // state saved for templates.
         int template_depth;
diff --git a/src/state_save.hpp b/src/state_save.hpp
index 8f76bad..05e78a0 100644
--- a/src/state_save.hpp
+++ b/src/state_save.hpp
@@ -43,6 +43,7 @@ namespace quickbook
         fs::path xinclude_base;
         source_mode_info source_mode;
         string_symbols macro;
+        int include_depth;
         int template_depth;
         int min_section_level;
 
-- 
2.43.0


From 85ad1a03bb15b25f6a21d91f7872d468cab4234d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:28 +0000
Subject: [PATCH 09/49] fix: stop expanding templates after an infinite loop is
 detected

A template that calls itself twice was otherwise expanded 2^100 times.
---
 src/actions.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/actions.cpp b/src/actions.cpp
index ac6f640..4076596 100644
--- a/src/actions.cpp
+++ b/src/actions.cpp
@@ -1286,6 +1286,11 @@ namespace quickbook
             return;
         }
 
+        // After an infinite loop has been detected, there's no point in
+        // expanding more templates. A template that calls itself several
+        // times would take forever to unwind.
+        if (state.infinite_loop) return;
+
         // The template arguments should have the scope that the template was
         // called from, not the template's own scope.
         //
@@ -1307,6 +1312,7 @@ namespace quickbook
                 detail::outerr(state.current_file, first)
                     << "Infinite loop detected" << std::endl;
                 ++state.error_count;
+                state.infinite_loop = true;
                 return;
             }
 
-- 
2.43.0


From f906ee3b721a98e786fef377778306238b4e3ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:13 +0000
Subject: [PATCH 10/49] fix: nested footnotes in HTML

Generating a nested footnote added to the vector of footnotes while it
was being iterated over.
---
 src/bb2html.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/bb2html.cpp b/src/bb2html.cpp
index ceb00bb..8aa6305 100644
--- a/src/bb2html.cpp
+++ b/src/bb2html.cpp
@@ -530,17 +530,18 @@ namespace quickbook
                 tag_end(gen.printer);
                 gen.printer.html += "<br/>";
                 gen.printer.html += "<hr/>";
-                for (std::vector<xml_element*>::iterator it =
-                         gen.chunk.footnotes.begin();
-                     it != gen.chunk.footnotes.end(); ++it) {
+                // Generating a footnote adds any footnotes it contains to the
+                // end of the list.
+                for (std::size_t i = 0; i < gen.chunk.footnotes.size(); ++i) {
+                    xml_element* footnote = gen.chunk.footnotes[i];
                     auto footnote_id =
-                        (*it)->get_attribute("(((footnote-id)))");
+                        footnote->get_attribute("(((footnote-id)))");
                     tag_start(gen.printer, "div");
                     tag_attribute(gen.printer, "id", footnote_id);
                     tag_attribute(gen.printer, "class", "footnote");
                     tag_end(gen.printer);
 
-                    generate_children_html(gen, *it);
+                    generate_children_html(gen, footnote);
                     close_tag(gen.printer, "div");
                 }
                 close_tag(gen.printer, "div");
-- 
2.43.0


From ebe1594fe9b1ee71861a9aaa51e0fde021dba044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:13 +0000
Subject: [PATCH 11/49] fix: HTML for callouts without an id

---
 src/bb2html.cpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/bb2html.cpp b/src/bb2html.cpp
index 8aa6305..3d36a56 100644
--- a/src/bb2html.cpp
+++ b/src/bb2html.cpp
@@ -1329,13 +1329,19 @@ namespace quickbook
                                              link->second.path(), gen.path));
                 tag_end(gen.printer);
             }
-            graphics_tag(
-                gen,
-                "/callouts/" +
-                    boost::lexical_cast<std::string>(data->second.number) +
-                    ".png",
-                "(" + boost::lexical_cast<std::string>(data->second.number) +
-                    ")");
+            if (data != gen.chunk.callout_numbers.end()) {
+                graphics_tag(
+                    gen,
+                    "/callouts/" +
+                        boost::lexical_cast<std::string>(data->second.number) +
+                        ".png",
+                    "(" +
+                        boost::lexical_cast<std::string>(data->second.number) +
+                        ")");
+            }
+            else {
+                gen.printer.html += "(0)";
+            }
             if (link != gen.state.ids.end()) {
                 close_tag(gen.printer, "a");
             }
-- 
2.43.0


From bf7e207616e6f16ed8d8317fd0b0d2e0c2496148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:13 +0000
Subject: [PATCH 12/49] fix: don't generate footnotes in titles twice

They were generated for the table of contents as well as for the title,
so the HTML contained footnotes with the same id.
---
 src/bb2html.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bb2html.cpp b/src/bb2html.cpp
index 3d36a56..e081680 100644
--- a/src/bb2html.cpp
+++ b/src/bb2html.cpp
@@ -1388,6 +1388,9 @@ namespace quickbook
 
         NODE_RULE(footnote, gen, x)
         {
+            // The footnote will be generated along with the title.
+            if (gen.in_toc) return;
+
             // TODO: Better id generation....
             static int footnote_number = 0;
             ++footnote_number;
-- 
2.43.0


From 316b76ef75274a294059ebb4b0b670a5b460e5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:47 +0000
Subject: [PATCH 13/49] fix: parse unclosed comments and old template bodies in
 linear time

A bracket that isn't closed was parsed twice, once as a nested block
and then again as plain text, so the time taken doubled for every
unclosed bracket. But when the nested block fails it's because the end
of the input (or line) was reached, so the outer block can't match
either.
---
 src/block_element_grammar.cpp | 2 +-
 src/main_grammar.cpp          | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/block_element_grammar.cpp b/src/block_element_grammar.cpp
index baba339..6ce8147 100644
--- a/src/block_element_grammar.cpp
+++ b/src/block_element_grammar.cpp
@@ -169,7 +169,7 @@ namespace quickbook
                 qbk_ver(106u)
             >>  *(~cl::eps_p(']') >> skip_entity)
             |   qbk_ver(0,106u)
-            >>  *(('[' >> local.template_body >> ']') | (cl::anychar_p - ']'))
+            >>  *(('[' >> local.template_body >> ']') | (cl::anychar_p - '[' - ']'))
             >> cl::eps_p(space >> ']')
             >> space
             ;
diff --git a/src/main_grammar.cpp b/src/main_grammar.cpp
index e18161d..33c97bb 100644
--- a/src/main_grammar.cpp
+++ b/src/main_grammar.cpp
@@ -1086,19 +1086,19 @@ namespace quickbook
                                                 // when preformatted.
 
         comment =
-            "[/" >> *(local.dummy_block | (cl::anychar_p - ']')) >> ']'
+            "[/" >> *(local.dummy_block | (cl::anychar_p - '[' - ']')) >> ']'
             ;
 
         local.dummy_block =
-            '[' >> *(local.dummy_block | (cl::anychar_p - ']')) >> ']'
+            '[' >> *(local.dummy_block | (cl::anychar_p - '[' - ']')) >> ']'
             ;
 
         line_comment =
-            "[/" >> *(local.line_dummy_block | (cl::anychar_p - (cl::eol_p | ']'))) >> ']'
+            "[/" >> *(local.line_dummy_block | (cl::anychar_p - (cl::eol_p | '[' | ']'))) >> ']'
             ;
 
         local.line_dummy_block =
-            '[' >> *(local.line_dummy_block | (cl::anychar_p - (cl::eol_p | ']'))) >> ']'
+            '[' >> *(local.line_dummy_block | (cl::anychar_p - (cl::eol_p | '[' | ']'))) >> ']'
             ;
 
         macro_identifier =
-- 
2.43.0


From 16aecedc55fc1ace5dcff557ad9736f9b08b2803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:59 +0000
Subject: [PATCH 14/49] fix: chunked output to a directory that doesn't exist
 yet

The directory is created when the first chunk is written, but an
assertion required it to exist before that. Also allow the output
directory to be in the current directory.
---
 src/quickbook.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/quickbook.cpp b/src/quickbook.cpp
index b1f7b03..44a8ed2 100644
--- a/src/quickbook.cpp
+++ b/src/quickbook.cpp
@@ -618,7 +618,10 @@ int main(int argc, char* argv[])
                         quickbook::detail::command_line_to_path(
                             vm["output-dir"].as<command_line_string>());
 
-                    if (!fs::is_directory(options.output_path.parent_path())) {
+                    fs::path parent = options.output_path.parent_path();
+                    if (parent.empty()) parent = ".";
+
+                    if (!fs::is_directory(parent)) {
                         quickbook::detail::outerr()
                             << "parent directory not found for output directory"
                             << std::endl;
@@ -704,7 +707,12 @@ int main(int argc, char* argv[])
                 // should be in filein's directory.
                 // If output_path was explicitly specified, then it's already
                 // been checked.
-                assert(error_count || fs::is_directory(options.xinclude_base));
+                // The directory for chunked output is created when it's
+                // written to, so it might not exist yet.
+                assert(
+                    error_count ||
+                    options.style == parse_document_options::output_chunked ||
+                    fs::is_directory(options.xinclude_base));
             }
 
             if (vm.count("image-location")) {
-- 
2.43.0


From 03a47f8971f6fef90a375d4c8ee7a48504f0f916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:28 +0000
Subject: [PATCH 15/49] fix: don't treat the block after an explicit list as a
 list item

After the last item of an ordered_list or itemized_list, the next
nested block was still marked as being part of the list.
---
 src/block_element_grammar.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/block_element_grammar.cpp b/src/block_element_grammar.cpp
index 6ce8147..5132274 100644
--- a/src/block_element_grammar.cpp
+++ b/src/block_element_grammar.cpp
@@ -259,7 +259,7 @@ namespace quickbook
             ;
 
         local.list =
-            *(  cl::eps_p                       [explicit_list]
+            *(  cl::eps_p(space >> '[')         [explicit_list]
             >>  local.cell
             )
             ;
-- 
2.43.0


From 2bc7e0f25ddf6c71163bab537e7be305a8e359a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:26 +0000
Subject: [PATCH 16/49] fix: keep simple markup within its block

A simple markup character that precedes the end of a block hid the end of the block,
so the formatting could run on into the next paragraph or past a close bracket.
---
 src/main_grammar.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/main_grammar.cpp b/src/main_grammar.cpp
index 33c97bb..9784ead 100644
--- a/src/main_grammar.cpp
+++ b/src/main_grammar.cpp
@@ -119,7 +119,7 @@ namespace quickbook
             member1 is_block_mask;
         };
 
-        cl::rule<scanner> simple_markup, simple_markup_end;
+        cl::rule<scanner> simple_markup, simple_markup_end, simple_markup_break;
 
         cl::rule<scanner> paragraph;
         cl::rule<scanner> list;
@@ -911,9 +911,11 @@ namespace quickbook
                         cl::eps_p((state.macro & macro_identifier) >> local.simple_markup_end)
                     >>  state.macro       [do_macro]
                     |   ~cl::eps_p(cl::ch_p(boost::ref(local.mark)))
-                    >>  +(  ~cl::eps_p
+                    >>  cl::anychar_p       [plain_char]
+                    >>  *(  ~cl::eps_p
                             (   lookback [~cl::ch_p(boost::ref(local.mark))]
                             >>  local.simple_markup_end
+                            |   local.simple_markup_break
                             )
                         >>  cl::anychar_p   [plain_char]
                         )
@@ -934,7 +936,11 @@ namespace quickbook
                                                  // final mark must be followed by
                                                  // space or punctuation
                 )
-            |   '['
+            |   local.simple_markup_break
+                ;
+
+        local.simple_markup_break
+            =   cl::ch_p('[')
             |   "'''"
             |   '`'
             |   phrase_end
-- 
2.43.0


From 6136c1e20fea89e0a62aadac09920c250c8e8f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:54 +0000
Subject: [PATCH 17/49] fix: don't break lines after an escape where there was
 no space

The pretty printer didn't know about the text it copied for an escape, so it could break the line, which adds
a space to the text, before a tag that immediately follows it.
---
 src/post_process.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/post_process.cpp b/src/post_process.cpp
index 1ee02bc..f101bee 100644
--- a/src/post_process.cpp
+++ b/src/post_process.cpp
@@ -327,6 +327,7 @@ namespace quickbook
         {
             for (iter_type i = f; i != l; ++i)
                 state.out += *i;
+            if (f != l) state.printer.prev = *(l - 1);
         }
 
         void do_escape(iter_type f, iter_type l) const
@@ -340,6 +341,8 @@ namespace quickbook
             for (iter_type i = f; i != l; ++i) {
                 state.out += *i;
             }
+            // So that the line isn't broken between this and the next tag.
+            if (f != l) state.printer.prev = *(l - 1);
         }
 
         void do_code(iter_type f, iter_type l) const
-- 
2.43.0


From 91949845174d6c3cdf1c3510136e0078cf7a1799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:32 +0000
Subject: [PATCH 18/49] fix: give empty snippets a position

---
 src/code_snippet.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/code_snippet.cpp b/src/code_snippet.cpp
index e2fd137..cb9881b 100644
--- a/src/code_snippet.cpp
+++ b/src/code_snippet.cpp
@@ -509,6 +509,8 @@ namespace quickbook
 
         mapped_file_builder f;
         f.start(source_file);
+        // So that there's a position for the snippet even when it's empty.
+        f.add_at_pos("", snippet->source_pos);
         if (snippet->start_code) {
             f.add_at_pos("\n\n", snippet->source_pos);
             f.add_at_pos(source_type, snippet->source_pos);
-- 
2.43.0


From afed8280f2615e143f955c06d01d50195e64931d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:32 +0000
Subject: [PATCH 19/49] fix: map positions in code after leading blank lines

The blank lines are dropped, but were still included in the position that the code was mapped to, so that
diagnostics had the wrong line, or hit an assertion.
---
 src/files.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/files.cpp b/src/files.cpp
index 7b95962..1079928 100644
--- a/src/files.cpp
+++ b/src/files.cpp
@@ -602,7 +602,8 @@ namespace quickbook
 
         unindented_program.append(program.begin() + copy_start, program.end());
 
-        data->new_file->add_indented_mapped_file_section(x.begin());
+        data->new_file->add_indented_mapped_file_section(
+            x.begin() + text_start);
         data->new_file->source_.append(unindented_program);
     }
 
-- 
2.43.0


From 61c44d92e2acfdbfc562000a881371ac30849151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:56 +0000
Subject: [PATCH 20/49] fix: escape explicit ids in the output

---
 src/doc_info_actions.cpp |  4 ++--
 src/id_generation.cpp    | 10 ++++++----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/doc_info_actions.cpp b/src/doc_info_actions.cpp
index 1472eed..bb7d0d1 100644
--- a/src/doc_info_actions.cpp
+++ b/src/doc_info_actions.cpp
@@ -403,10 +403,10 @@ namespace quickbook
                 state.out << doc_info_output(info.dirname, 106);
             }
             else if (!info.id_.empty()) {
-                state.out << info.id_;
+                state.out << detail::encode_string(info.id_);
             }
             else if (!info.include_doc_id_.empty()) {
-                state.out << info.include_doc_id_;
+                state.out << detail::encode_string(info.include_doc_id_);
             }
             else if (!info.doc_title.empty()) {
                 state.out << detail::make_identifier(
diff --git a/src/id_generation.cpp b/src/id_generation.cpp
index 15c5e39..4008574 100644
--- a/src/id_generation.cpp
+++ b/src/id_generation.cpp
@@ -13,6 +13,7 @@
 #include <boost/unordered_map.hpp>
 #include "document_state_impl.hpp"
 #include "for.hpp"
+#include "utils.hpp"
 
 namespace quickbook
 {
@@ -302,11 +303,12 @@ namespace quickbook
         void id_value(quickbook::string_view value)
         {
             if (id_placeholder const* p = state.get_placeholder(value)) {
-                quickbook::string_view id =
-                    ids ? (*ids)[p->index] : p->unresolved_id;
-
                 result.append(source_pos, value.begin());
-                result.append(id.begin(), id.end());
+                // Explicit ids can contain characters that aren't valid
+                // in an attribute.
+                result.append(
+                    ids ? detail::encode_string((*ids)[p->index])
+                        : p->unresolved_id);
                 source_pos = value.end();
             }
         }
-- 
2.43.0


From a4ce63202c59704f2dd8e384abd3bdbc5fffe0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:11 +0000
Subject: [PATCH 21/49] fix: highlight comments that directly follow an
 operator

---
 src/syntax_highlight.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/syntax_highlight.cpp b/src/syntax_highlight.cpp
index f6a6d3e..a7d11e5 100644
--- a/src/syntax_highlight.cpp
+++ b/src/syntax_highlight.cpp
@@ -324,7 +324,9 @@ namespace quickbook
                     ;   // make sure we recognize whole words only
 
                 special
-                    =   +cl::chset_p("~!%^&*()+={[}]:;,<.>?/|\\#-")
+                    =   +(  cl::chset_p("~!%^&*()+={[}]:;,<.>?/|\\#-")
+                        -   (cl::str_p("//") | "/*")
+                        )
                     ;
 
                 string_char = ('\\' >> u8_codepoint_p) | (cl::anychar_p - '\\');
-- 
2.43.0


From 528259139db09d442c6f5243aaac3715a0333925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:11 +0000
Subject: [PATCH 22/49] fix: highlight hexadecimal numbers of any size

---
 src/syntax_highlight.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/syntax_highlight.cpp b/src/syntax_highlight.cpp
index a7d11e5..f3968d2 100644
--- a/src/syntax_highlight.cpp
+++ b/src/syntax_highlight.cpp
@@ -341,7 +341,7 @@ namespace quickbook
 
                 number
                     =   (
-                            cl::as_lower_d["0x"] >> cl::hex_p
+                            cl::as_lower_d["0x"] >> +cl::xdigit_p
                         |   '0' >> cl::oct_p
                         |   cl::real_p
                         )
@@ -500,7 +500,7 @@ namespace quickbook
                 
                 number
                     =   (
-                            cl::as_lower_d["0x"] >> cl::hex_p
+                            cl::as_lower_d["0x"] >> +cl::xdigit_p
                         |   '0' >> cl::oct_p
                         |   cl::real_p
                         )
-- 
2.43.0


From faf372792873d06310be16f3efb32183789ef0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:23 +0000
Subject: [PATCH 23/49] fix: give command line macros a current file

Some of the markup allowed in the value of a macro (code, line breaks,
escapes) uses the current file, which is null before a file is loaded.
---
 src/quickbook.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/quickbook.cpp b/src/quickbook.cpp
index 44a8ed2..73bd0b4 100644
--- a/src/quickbook.cpp
+++ b/src/quickbook.cpp
@@ -61,8 +61,11 @@ namespace quickbook
     static void set_macros(quickbook::state& state)
     {
         QUICKBOOK_FOR (quickbook::string_view val, preset_defines) {
-            parse_iterator first(val.begin());
-            parse_iterator last(val.end());
+            // Parsing some markup requires a current file.
+            state.current_file = new file("(command line)", val, qbk_version_n);
+
+            parse_iterator first(state.current_file->source().begin());
+            parse_iterator last(state.current_file->source().end());
 
             cl::parse_info<parse_iterator> info =
                 cl::parse(first, last, state.grammar().command_line_macro);
-- 
2.43.0


From 7190604e0bf6e94d90211bbe4a15ebbf9bb9633a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:23 +0000
Subject: [PATCH 24/49] fix: report elements used outside of a document

Headings, sections, footnotes, tables, templates and includes in document
info attributes and in command line macros used the document state before
the document was started.
---
 src/actions.cpp        | 28 ++++++++++++++++++++++++++++
 src/document_state.cpp |  5 +++++
 src/document_state.hpp |  3 +++
 3 files changed, 36 insertions(+)

diff --git a/src/actions.cpp b/src/actions.cpp
index 4076596..a454f27 100644
--- a/src/actions.cpp
+++ b/src/actions.cpp
@@ -160,6 +160,34 @@ namespace quickbook
         value v = values.consume();
         values.finish();
 
+        // These elements are part of a document, so they can't be used before
+        // it's started, i.e. in the attributes of its doc info or in macros
+        // defined on the command line.
+        if (!state.document.is_started()) {
+            switch (v.get_tag()) {
+            case block_tags::generic_heading:
+            case block_tags::heading1:
+            case block_tags::heading2:
+            case block_tags::heading3:
+            case block_tags::heading4:
+            case block_tags::heading5:
+            case block_tags::heading6:
+            case block_tags::begin_section:
+            case block_tags::end_section:
+            case block_tags::table:
+            case block_tags::template_definition:
+            case block_tags::import:
+            case block_tags::include:
+            case phrase_tags::footnote:
+                detail::outerr(state.current_file, first.base())
+                    << "Element not allowed in this context." << std::endl;
+                ++state.error_count;
+                return;
+            default:
+                break;
+            }
+        }
+
         switch (v.get_tag()) {
         case block_tags::ordered_list:
         case block_tags::itemized_list:
diff --git a/src/document_state.cpp b/src/document_state.cpp
index aaf872e..df3712f 100644
--- a/src/document_state.cpp
+++ b/src/document_state.cpp
@@ -149,6 +149,11 @@ namespace quickbook
 
     void document_state::end_section() { return state->end_section(); }
 
+    bool document_state::is_started() const
+    {
+        return static_cast<bool>(state->current_file);
+    }
+
     int document_state::section_level() const
     {
         return state->current_file->document->current_section->level;
diff --git a/src/document_state.hpp b/src/document_state.hpp
index a2e056a..7fa60be 100644
--- a/src/document_state.hpp
+++ b/src/document_state.hpp
@@ -72,6 +72,9 @@ namespace quickbook
             id_category,
             source_mode_info const&);
         void end_section();
+        // True when inside a file.
+        bool is_started() const;
+
         int section_level() const;
         value const& explicit_id() const;
         source_mode_info section_source_mode() const;
-- 
2.43.0


From 3de7b2e46e9ce22ec6193111b7dd04ba547e7eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:34 +0000
Subject: [PATCH 25/49] fix: write out anchors at the end of a document

An anchor that wasn't followed by any content was dropped, leaving links to
it dangling.
---
 src/actions.cpp          | 5 +++++
 src/actions.hpp          | 3 +++
 src/doc_info_actions.cpp | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/src/actions.cpp b/src/actions.cpp
index a454f27..cff34c2 100644
--- a/src/actions.cpp
+++ b/src/actions.cpp
@@ -276,6 +276,11 @@ namespace quickbook
         }
     }
 
+    void write_remaining_anchors(quickbook::state& state)
+    {
+        write_anchors(state, state.out);
+    }
+
     void break_action::operator()(parse_iterator first, parse_iterator) const
     {
         write_anchors(state, state.phrase);
diff --git a/src/actions.hpp b/src/actions.hpp
index 7039094..5577a26 100644
--- a/src/actions.hpp
+++ b/src/actions.hpp
@@ -268,6 +268,9 @@ namespace quickbook
         bool nested_file);
     void post(quickbook::state& state, std::string const& doc_type);
 
+    // Write out any anchors that aren't followed by any content.
+    void write_remaining_anchors(quickbook::state& state);
+
     struct to_value_scoped_action : scoped_action_base
     {
         to_value_scoped_action(quickbook::state& state_) : state(state_) {}
diff --git a/src/doc_info_actions.cpp b/src/doc_info_actions.cpp
index bb7d0d1..dc98789 100644
--- a/src/doc_info_actions.cpp
+++ b/src/doc_info_actions.cpp
@@ -12,6 +12,7 @@
 #include <boost/algorithm/string/join.hpp>
 #include <boost/bind/bind.hpp>
 #include <boost/filesystem/operations.hpp>
+#include "actions.hpp"
 #include "doc_info_tags.hpp"
 #include "document_state.hpp"
 #include "files.hpp"
@@ -571,6 +572,9 @@ namespace quickbook
         // We've finished generating our output. Here's what we'll do
         // *after* everything else.
 
+        // Anchors at the end of the document have no content to attach to.
+        if (!doc_type.empty()) write_remaining_anchors(state);
+
         // Close any open sections.
         if (!doc_type.empty() && state.document.section_level() > 1) {
             if (state.strict_mode) {
-- 
2.43.0


From 1f94dc1f9afdcfef1555e8aeaeb8a566327fa014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:38 +0000
Subject: [PATCH 26/49] fix: ids given with an include of a document were lost

---
 src/document_state.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/document_state.cpp b/src/document_state.cpp
index df3712f..b6cf5ea 100644
--- a/src/document_state.cpp
+++ b/src/document_state.cpp
@@ -326,8 +326,8 @@ namespace quickbook
 
             if (!initial_doc_id.empty()) {
                 return create_new_section(
-                    empty_value(), id, id_category::explicit_section_id,
-                    default_source_mode);
+                    empty_value(), initial_doc_id,
+                    id_category::explicit_section_id, default_source_mode);
             }
             else if (!title.empty()) {
                 return create_new_section(
-- 
2.43.0


From a9ffcbb3ac2ca62eef2209ec26b0e7eee7dd6c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:38 +0000
Subject: [PATCH 27/49] fix: more than 255 failing pages made the exit status
 zero

---
 src/bb2html.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bb2html.cpp b/src/bb2html.cpp
index e081680..716d50e 100644
--- a/src/bb2html.cpp
+++ b/src/bb2html.cpp
@@ -258,7 +258,7 @@ namespace quickbook
             if (chunked.root()) {
                 generate_chunks(state, chunked.root());
             }
-            return state.error_count;
+            return state.error_count ? 1 : 0;
         }
 
         void gather_chunk_ids(chunk_state& c_state, xml_element* x)
-- 
2.43.0


From a075b166c7bdf6710a620415554ff27127538925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:38 +0000
Subject: [PATCH 28/49] fix: dependency files that could not be written
 reported as success

---
 src/dependency_tracker.cpp | 7 +++++++
 src/quickbook.cpp          | 1 -
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/dependency_tracker.cpp b/src/dependency_tracker.cpp
index 5f50352..8e9a8cd 100644
--- a/src/dependency_tracker.cpp
+++ b/src/dependency_tracker.cpp
@@ -93,6 +93,13 @@ namespace quickbook
 
         out.exceptions(std::ios::badbit);
         write_dependencies(out, f);
+        out.close();
+
+        if (out.fail()) {
+            throw std::runtime_error(
+                "Error writing dependency file " +
+                quickbook::detail::path_to_generic(file_out));
+        }
     }
 
     void dependency_tracker::write_dependencies(std::ostream& out, flags f)
diff --git a/src/quickbook.cpp b/src/quickbook.cpp
index 73bd0b4..bc53af7 100644
--- a/src/quickbook.cpp
+++ b/src/quickbook.cpp
@@ -187,7 +187,6 @@ namespace quickbook
             }
 
             if (!options_.locations_out.empty()) {
-                fs::ofstream out(options_.locations_out);
                 state.dependencies.write_dependencies(
                     options_.locations_out, dependency_tracker::checked);
             }
-- 
2.43.0


From 7a1c840f7e76549c15a283c1851d2806d3ed6dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:45 +0000
Subject: [PATCH 29/49] fix: report the marks of snippets at their own line

The position used was that of the white space before the mark, which
starts at the end of the line before; for unclosed snippets no line was
given at all.
---
 src/code_snippet.cpp | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/code_snippet.cpp b/src/code_snippet.cpp
index cb9881b..529c73c 100644
--- a/src/code_snippet.cpp
+++ b/src/code_snippet.cpp
@@ -367,6 +367,19 @@ namespace quickbook
         return a.error_count;
     }
 
+    // A mark starts with the white space (and line end) before it, this is where
+    // the mark itself is.
+    static string_iterator skip_space(
+        string_iterator first, string_iterator last)
+    {
+        while (first != last && (*first == ' ' || *first == '\t' ||
+                                 *first == '\r' || *first == '\n')) {
+            ++first;
+        }
+
+        return first;
+    }
+
     void code_snippet_actions::append_code(
         string_iterator first, string_iterator last)
     {
@@ -449,7 +462,8 @@ namespace quickbook
         string_iterator first, string_iterator last)
     {
         append_code(first, last);
-        start_snippet_impl(std::string(mark_begin, mark_end), first);
+        start_snippet_impl(
+            std::string(mark_begin, mark_end), skip_space(first, last));
     }
 
     void code_snippet_actions::end_snippet(
@@ -458,13 +472,15 @@ namespace quickbook
         append_code(first, last);
 
         if (!snippet_stack) {
+            string_iterator pos = skip_space(first, last);
+
             if (qbk_version_n >= 106u) {
-                detail::outerr(source_file, first)
+                detail::outerr(source_file, pos)
                     << "Mismatched end snippet." << std::endl;
                 ++error_count;
             }
             else {
-                detail::outwarn(source_file, first)
+                detail::outwarn(source_file, pos)
                     << "Mismatched end snippet." << std::endl;
             }
             return;
@@ -480,13 +496,13 @@ namespace quickbook
 
         while (snippet_stack) {
             if (qbk_version_n >= 106u) {
-                detail::outerr(source_file->path)
+                detail::outerr(source_file, snippet_stack->source_pos)
                     << "Unclosed snippet '" << snippet_stack->id << "'"
                     << std::endl;
                 ++error_count;
             }
             else {
-                detail::outwarn(source_file->path)
+                detail::outwarn(source_file, snippet_stack->source_pos)
                     << "Unclosed snippet '" << snippet_stack->id << "'"
                     << std::endl;
             }
-- 
2.43.0


From 105f4b13c9af69492c8cab760fd0f8c04b9e6e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:15 +0000
Subject: [PATCH 30/49] fix: end snippets at the mark inside a line

Snippets can start inside a line with /*[id*/, but instead of /*]*/ the
mark that ended them there was /*[*/.
---
 src/code_snippet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/code_snippet.cpp b/src/code_snippet.cpp
index 529c73c..aee26ee 100644
--- a/src/code_snippet.cpp
+++ b/src/code_snippet.cpp
@@ -269,7 +269,7 @@ namespace quickbook
                         >>  *cl::blank_p
                         >>  cl::eps_p(cl::eol_p)
                     |
-                            "/*[*/"
+                            "/*]*/"
                     ;
 
                 ignore
-- 
2.43.0


From 728ae215f4b92de508a837437466f65c90b456bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:32 +0000
Subject: [PATCH 31/49] fix: quickbook after a snippet shown as code when
 including a source file

Outside of snippets there is no code, but the flag for it was still set
after the end of a snippet.
---
 src/code_snippet.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/code_snippet.cpp b/src/code_snippet.cpp
index aee26ee..1cd4f3f 100644
--- a/src/code_snippet.cpp
+++ b/src/code_snippet.cpp
@@ -537,6 +537,9 @@ namespace quickbook
             f.add_at_pos("\n```\n\n", position);
         }
 
+        // What follows the outermost snippet is not part of its code.
+        if (!snippet_stack) in_code = false;
+
         std::vector<std::string> params;
 
         file_ptr body = f.release();
-- 
2.43.0


From 884a39bc4241a04eeeac68b194a06a77aaf9026b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:28 +0000
Subject: [PATCH 32/49] fix: write unicode escapes in attribute values as
 characters

The values are plain text that is escaped when it's written, so the
character references were escaped a second time.
---
 src/actions.cpp      | 13 +++++++++++++
 src/actions.hpp      | 10 ++++++++++
 src/main_grammar.cpp |  5 +++--
 3 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/actions.cpp b/src/actions.cpp
index cff34c2..43be031 100644
--- a/src/actions.cpp
+++ b/src/actions.cpp
@@ -894,6 +894,19 @@ namespace quickbook
         }
     }
 
+    void raw_unicode_action::operator()(
+        parse_iterator first, parse_iterator last) const
+    {
+        while (first != last && *first == '0')
+            ++first;
+
+        // Just ignore \u0000, as in escape_unicode_action.
+        if (first == last) return;
+
+        state.phrase << detail::decode_string(
+            "&#x" + std::string(first, last) + ";");
+    }
+
     void write_plain_text(std::ostream& out, value const& v)
     {
         if (v.is_encoded()) {
diff --git a/src/actions.hpp b/src/actions.hpp
index 5577a26..511825f 100644
--- a/src/actions.hpp
+++ b/src/actions.hpp
@@ -228,6 +228,16 @@ namespace quickbook
         quickbook::state& state;
     };
 
+    // Writes the character as it is, for use in plain text values.
+    struct raw_unicode_action
+    {
+        explicit raw_unicode_action(quickbook::state& state_) : state(state_) {}
+
+        void operator()(parse_iterator first, parse_iterator last) const;
+
+        quickbook::state& state;
+    };
+
     struct escape_unicode_action
     {
         explicit escape_unicode_action(quickbook::state& state_) : state(state_)
diff --git a/src/main_grammar.cpp b/src/main_grammar.cpp
index 9784ead..dc23ce3 100644
--- a/src/main_grammar.cpp
+++ b/src/main_grammar.cpp
@@ -332,6 +332,7 @@ namespace quickbook
         raw_char_action raw_char(state);
         plain_char_action plain_char(state);
         escape_unicode_action escape_unicode(state);
+        raw_unicode_action raw_unicode(state);
 
         simple_phrase_action simple_markup(state);
 
@@ -981,9 +982,9 @@ namespace quickbook
             |   cl::str_p("\\ ")                // ignore an escaped space
             |   '\\' >> cl::punct_p             [raw_char]
             |   "\\u" >> cl::repeat_p(4) [cl::chset<>("0-9a-fA-F")]
-                                                [escape_unicode]
+                                                [raw_unicode]
             |   "\\U" >> cl::repeat_p(8) [cl::chset<>("0-9a-fA-F")]
-                                                [escape_unicode]
+                                                [raw_unicode]
             |   ('\\' >> cl::anychar_p)         [error("Invalid escape.")]
                                                 [raw_char]
             |   ("'''" >> !eol)                 [error("Boostbook escape invalid here.")]
-- 
2.43.0


From 1ed33d811efb58eef4761c94e7b0a2d7b28df6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:37 +0000
Subject: [PATCH 33/49] fix: decode the xmlbase attribute before using it as a
 path

---
 src/doc_info_actions.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/doc_info_actions.cpp b/src/doc_info_actions.cpp
index dc98789..2a47c43 100644
--- a/src/doc_info_actions.cpp
+++ b/src/doc_info_actions.cpp
@@ -324,7 +324,12 @@ namespace quickbook
         // std::string xmlbase_value;
 
         if (!info.xmlbase.empty()) {
-            path_parameter x = check_xinclude_path(info.xmlbase, state);
+            // Paths are plain text, but the attribute was parsed as boostbook.
+            value xmlbase = encoded_qbk_value(
+                info.xmlbase.get_file(), info.xmlbase.get_quickbook().begin(),
+                info.xmlbase.get_quickbook().end(),
+                detail::decode_string(info.xmlbase.get_encoded()));
+            path_parameter x = check_xinclude_path(xmlbase, state);
 
             if (x.type == path_parameter::path) {
                 quickbook_path path = resolve_xinclude_path(x.value, state);
-- 
2.43.0


From cd7f7046a250ac5f9adba9a8b28ef9f8a27fec6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:37 +0000
Subject: [PATCH 34/49] fix: only read whole attributes of the svg element for
 an image's size

The text 'width' or 'height' in other attributes, and values in single
quotes, gave the wrong size.
---
 src/actions.cpp | 78 +++++++++++++++++++++++++++++++------------------
 1 file changed, 49 insertions(+), 29 deletions(-)

diff --git a/src/actions.cpp b/src/actions.cpp
index 43be031..7e2c4b1 100644
--- a/src/actions.cpp
+++ b/src/actions.cpp
@@ -922,6 +922,46 @@ namespace quickbook
         }
     }
 
+    // Find an attribute of the svg element of an SVG file.
+    bool get_svg_attribute(
+        std::string const& svg, std::string const& name, std::string& value)
+    {
+        static char const space[] = " \t\r\n";
+
+        std::string::size_type pos = svg.find("<svg");
+        if (pos == std::string::npos) return false;
+        pos += 4;
+
+        for (;;) {
+            pos = svg.find_first_not_of(space, pos);
+            if (pos == std::string::npos) return false;
+
+            std::string::size_type name_end =
+                svg.find_first_of(" \t\r\n=/>", pos);
+            if (name_end == pos || name_end == std::string::npos) return false;
+
+            std::string::size_type equals =
+                svg.find_first_not_of(space, name_end);
+            if (equals == std::string::npos || svg[equals] != '=') return false;
+
+            std::string::size_type quote =
+                svg.find_first_not_of(space, equals + 1);
+            if (quote == std::string::npos ||
+                (svg[quote] != '"' && svg[quote] != '\''))
+                return false;
+
+            std::string::size_type end = svg.find(svg[quote], quote + 1);
+            if (end == std::string::npos) return false;
+
+            if (svg.compare(pos, name_end - pos, name) == 0) {
+                value = svg.substr(quote + 1, end - quote - 1);
+                return true;
+            }
+
+            pos = end + 1;
+        }
+    }
+
     void image_action(quickbook::state& state, value image)
     {
         write_anchors(state, state.phrase);
@@ -1039,37 +1079,17 @@ namespace quickbook
                 svg_text = buffer.str();
             }
 
+            // Borrow the values of the svg element's "width" and "height"
+            // attributes:
             //
-            // Extract the svg header from the file:
-            //
-            std::string::size_type a, b;
-            a = svg_text.find("<svg");
-            b = svg_text.find('>', a);
-            svg_text =
-                (a == std::string::npos) ? "" : svg_text.substr(a, b - a);
-            //
-            // Now locate the "width" and "height" attributes
-            // and borrow their values:
-            //
-            a = svg_text.find("width");
-            a = svg_text.find('=', a);
-            a = svg_text.find('\"', a);
-            b = svg_text.find('\"', a + 1);
-            if (a != std::string::npos && b != std::string::npos) {
-                attributes.insert(std::make_pair(
-                    "contentwidth", encoded_value(std::string(
-                                        boost::next(svg_text.begin(), a + 1),
-                                        boost::next(svg_text.begin(), b)))));
+            std::string value;
+            if (get_svg_attribute(svg_text, "width", value)) {
+                attributes.insert(
+                    std::make_pair("contentwidth", encoded_value(value)));
             }
-            a = svg_text.find("height");
-            a = svg_text.find('=', a);
-            a = svg_text.find('\"', a);
-            b = svg_text.find('\"', a + 1);
-            if (a != std::string::npos && b != std::string::npos) {
-                attributes.insert(std::make_pair(
-                    "contentdepth", encoded_value(std::string(
-                                        boost::next(svg_text.begin(), a + 1),
-                                        boost::next(svg_text.begin(), b)))));
+            if (get_svg_attribute(svg_text, "height", value)) {
+                attributes.insert(
+                    std::make_pair("contentdepth", encoded_value(value)));
             }
         }
 
-- 
2.43.0


From 7a2eb00c829b08d23995e37f997a8c933865bfd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:50 +0000
Subject: [PATCH 35/49] fix: report reversed year ranges instead of an internal
 error

---
 src/doc_info_actions.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/doc_info_actions.cpp b/src/doc_info_actions.cpp
index 2a47c43..7de9a36 100644
--- a/src/doc_info_actions.cpp
+++ b/src/doc_info_actions.cpp
@@ -489,9 +489,14 @@ namespace quickbook
                     if (year_end < year_start) {
                         ++state.error_count;
 
+                        // Years don't have a position, so use the position
+                        // of the holder's name.
+                        value_consumer name = copyright;
+                        while (!name.check(doc_info_tags::copyright_name))
+                            name.consume();
+
                         detail::outerr(
-                            state.current_file,
-                            copyright.begin()->get_position())
+                            state.current_file, name.begin()->get_position())
                             << "Invalid year range: " << year_start << "-"
                             << year_end << "." << std::endl;
                     }
-- 
2.43.0


From bb3f1bbb3df009fac8de8550e840ddb60aef62c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:17 +0000
Subject: [PATCH 36/49] fix: record the directory that was searched for a glob

In a template from a file in another directory the list of checked
locations had the pattern in the directory of the template, although
it's looked for in the directory of the file that uses the template.
---
 src/include_paths.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include_paths.cpp b/src/include_paths.cpp
index 80cd5e3..667eab9 100644
--- a/src/include_paths.cpp
+++ b/src/include_paths.cpp
@@ -196,7 +196,7 @@ namespace quickbook
             // If the path has some glob match characters
             // we do a discovery of all the matches..
             {
-                fs::path current = state.current_file->path.parent_path();
+                fs::path current = state.current_path.parent_path().file_path;
 
                 // Search for the current dir accumulating to the result.
                 state.dependencies.add_glob(current / parameter.value);
-- 
2.43.0


From 13e31bd0e311da96232a0b9c6ad42a5b3aa5e635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:13 +0000
Subject: [PATCH 37/49] fix: leave absolute URLs alone in pages below the top
 directory

Chunked html prefixed every link and image in a page such as a/b.html
with ../, so a link to http://boost.org led to ../http://boost.org.
---
 src/bb2html.cpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/bb2html.cpp b/src/bb2html.cpp
index 716d50e..b49fa5a 100644
--- a/src/bb2html.cpp
+++ b/src/bb2html.cpp
@@ -86,6 +86,8 @@ namespace quickbook
             html_state&, std::string const& path, std::string const& content);
         std::string get_link_from_path(
             html_gen&, quickbook::string_view, quickbook::string_view);
+        std::string get_link_from_url(
+            html_gen&, quickbook::string_view, quickbook::string_view);
         std::string relative_path_or_url(html_gen&, path_or_url const&);
         std::string relative_path_from_fs_paths(
             fs::path const&, fs::path const&);
@@ -764,6 +766,23 @@ namespace quickbook
             return relative_path_from_url_paths(link, path);
         }
 
+        // For a URL from the document. Absolute URLs, paths from the root and
+        // links inside the page don't depend on the page's location.
+        std::string get_link_from_url(
+            html_gen& gen,
+            quickbook::string_view link,
+            quickbook::string_view path)
+        {
+            if (!boost::starts_with(link, "boost:")) {
+                auto pos = link.find_first_of(":/?#");
+                if (pos != string_view::npos && (pos == 0 || link[pos] == ':')) {
+                    return link.to_s();
+                }
+            }
+
+            return get_link_from_path(gen, link, path);
+        }
+
         std::string relative_path_or_url(html_gen& gen, path_or_url const& x)
         {
             assert(x);
@@ -1034,7 +1053,7 @@ namespace quickbook
             if (x->has_attribute("url")) {
                 tag_attribute(
                     gen.printer, "href",
-                    get_link_from_path(gen, x->get_attribute("url"), gen.path));
+                    get_link_from_url(gen, x->get_attribute("url"), gen.path));
             }
             tag_end(gen.printer);
             generate_children_html(gen, x);
@@ -1175,7 +1194,7 @@ namespace quickbook
                 tag_start_with_id(gen, "img", x);
                 tag_attribute(
                     gen.printer, "src",
-                    get_link_from_path(gen, image, gen.path));
+                    get_link_from_url(gen, image, gen.path));
                 tag_attribute(gen.printer, "alt", alt);
                 tag_end_self_close(gen.printer);
                 close_tag(gen.printer, "span");
-- 
2.43.0


From 49eda6978ec69e5c9dec4458340a4dba2fb3300f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:29 +0000
Subject: [PATCH 38/49] fix: join picture names to the default graphics URL as
 to a directory

---
 src/quickbook.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quickbook.cpp b/src/quickbook.cpp
index bc53af7..3fac3d6 100644
--- a/src/quickbook.cpp
+++ b/src/quickbook.cpp
@@ -577,7 +577,7 @@ int main(int argc, char* argv[])
             }
             else if (options.html_ops.boost_root_path) {
                 options.html_ops.graphics_path =
-                    options.html_ops.boost_root_path / "doc/src/images";
+                    options.html_ops.boost_root_path / "doc/src/images/";
             }
 
             if (vm.count("output-file")) {
-- 
2.43.0


From bbf9371040c162977c8281d9adb342ba081e92b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:03 +0000
Subject: [PATCH 39/49] fix: write chunks whose ids give the same path to
 separate files

---
 src/bb2html.cpp           |  1 +
 src/boostbook_chunker.cpp | 23 +++++++++++++++++++++++
 src/boostbook_chunker.hpp |  1 +
 3 files changed, 25 insertions(+)

diff --git a/src/bb2html.cpp b/src/bb2html.cpp
index b49fa5a..d5f2e1b 100644
--- a/src/bb2html.cpp
+++ b/src/bb2html.cpp
@@ -243,6 +243,7 @@ namespace quickbook
             chunked.root()->path_ =
                 path_to_generic(options.home_path.filename());
             if (options.chunked_output) {
+                make_paths_unique(chunked.root());
                 inline_sections(chunked.root(), 0);
 
                 // Create the root directory if necessary for chunked
diff --git a/src/boostbook_chunker.cpp b/src/boostbook_chunker.cpp
index ec822d9..ae379cc 100644
--- a/src/boostbook_chunker.cpp
+++ b/src/boostbook_chunker.cpp
@@ -76,6 +76,29 @@ namespace quickbook
             return builder.release();
         }
 
+        void make_paths_unique_impl(
+            boost::unordered_set<std::string>& paths, chunk* c)
+        {
+            std::string const base = c->path_.substr(0, c->path_.rfind('.'));
+            std::string const extension = c->path_.substr(base.size());
+            for (int count = 2; !paths.insert(c->path_).second; ++count) {
+                c->path_ = base + "-" +
+                           boost::lexical_cast<std::string>(count) + extension;
+            }
+
+            for (chunk* it = c->children(); it; it = it->next()) {
+                make_paths_unique_impl(paths, it);
+            }
+        }
+
+        // Different ids can be turned into the same path, and the root's path
+        // isn't made from its id.
+        void make_paths_unique(chunk* c)
+        {
+            boost::unordered_set<std::string> paths;
+            make_paths_unique_impl(paths, c);
+        }
+
         void inline_sections(chunk* c, int depth)
         {
             if (c->contents_.root()->name_ == "section" && depth > 1) {
diff --git a/src/boostbook_chunker.hpp b/src/boostbook_chunker.hpp
index b9a2d1f..0dbbdcc 100644
--- a/src/boostbook_chunker.hpp
+++ b/src/boostbook_chunker.hpp
@@ -33,6 +33,7 @@ namespace quickbook
         typedef tree<chunk> chunk_tree;
 
         chunk_tree chunk_document(xml_tree&);
+        void make_paths_unique(chunk*);
         void inline_sections(chunk*, int depth);
         void inline_all(chunk*);
     }
-- 
2.43.0


From 2ac4fbe027b0d9787b55d76a24f7db07d00c1522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:57 +0000
Subject: [PATCH 40/49] fix: find the position of the end of unindented text

An error at the end of a template made from an indented comment ended the
program with a failed assertion, as there is no character to compare.
---
 src/files.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/files.cpp b/src/files.cpp
index 1079928..48e1eec 100644
--- a/src/files.cpp
+++ b/src/files.cpp
@@ -347,8 +347,11 @@ namespace quickbook
                 original_line =
                     skip_indentation(original->source(), original_line);
 
-                // Confirm that we are actually in the same position.
-                assert(original->source()[original_line] == source()[our_line]);
+                // Confirm that we are actually in the same position (there's
+                // nothing to compare at the end of the source).
+                assert(
+                    our_line == source().size() ||
+                    original->source()[original_line] == source()[our_line]);
 
                 // Calculate the position
                 return original_line + (pos - our_line);
-- 
2.43.0


From 3674801539fd23353e05c9a3c2c6db3d62d5f5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:57 +0000
Subject: [PATCH 41/49] fix: clear also what hasn't been flushed yet from a
 collector

Text written to the stream and not yet flushed came back after clear().
---
 src/collector.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/collector.hpp b/src/collector.hpp
index 920b78d..811a7e0 100644
--- a/src/collector.hpp
+++ b/src/collector.hpp
@@ -35,7 +35,11 @@ namespace quickbook
 
         std::ostream& get() const { return *stream_ptr.get(); }
 
-        void clear() { buffer_ptr->clear(); }
+        void clear()
+        {
+            stream_ptr->flush();
+            buffer_ptr->clear();
+        }
 
         void swap(std::string& other)
         {
-- 
2.43.0


From 31b418037628f2b5b17e109e101e2c655d5df59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:48 +0000
Subject: [PATCH 42/49] fix: step over new lines in tags when looking for links

A new line in a tag of the phrase to be linked (for example in a raw escape
in a title) made linkify loop for ever.
---
 src/id_xml.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/id_xml.cpp b/src/id_xml.cpp
index 8209f64..56f8aae 100644
--- a/src/id_xml.cpp
+++ b/src/id_xml.cpp
@@ -147,7 +147,7 @@ namespace quickbook
                         }
 
                         for (;;) {
-                            read_to_one_of(it, end, "\"'\n\r>");
+                            read_to_one_of(it, end, "\"'>");
                             if (it == end || *it == '>') break;
                             if (*it == '"' || *it == '\'') {
                                 char delim = *it;
-- 
2.43.0


From a9f253382d1ec918130dec3fc67b3cdf4f6ef6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:44 +0000
Subject: [PATCH 43/49] fix: don't allow sections in the nested blocks of
 quickbook 1.7

A [section] or [endsect] in a block element such as [note] was carried out
when it was met, so its tags and those of the block crossed in the output.
---
 src/main_grammar.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/main_grammar.cpp b/src/main_grammar.cpp
index dc23ce3..b5509ec 100644
--- a/src/main_grammar.cpp
+++ b/src/main_grammar.cpp
@@ -133,6 +133,7 @@ namespace quickbook
         unsigned int list_indent;
         bool no_eols;
         element_info::context context;
+        element_info::context block_context; // For the paragraphs of a block
         char mark;           // Simple markup's deliminator
         bool still_in_block; // Inside a syntatic block
 
@@ -152,6 +153,7 @@ namespace quickbook
             , list_indent(0)
             , no_eols(true)
             , context(element_info::in_top_level)
+            , block_context(element_info::in_top_level)
             , mark('\0')
             , still_in_block(false)
             , state_(state)
@@ -355,6 +357,8 @@ namespace quickbook
             local, &main_grammar_local::no_eols);
         set_scoped_value<main_grammar_local, element_info::context>
             scoped_context(local, &main_grammar_local::context);
+        set_scoped_value<main_grammar_local, element_info::context>
+            scoped_block_context(local, &main_grammar_local::block_context);
         set_scoped_value<main_grammar_local, bool> scoped_still_in_block(
             local, &main_grammar_local::still_in_block);
 
@@ -453,13 +457,14 @@ namespace quickbook
         // Top level blocks
         block_start =
                 (*eol)                  [start_blocks]
-            >>  (   *(  local.top_level
+            >>  scoped_block_context(element_info::in_top_level)
+                [   *(  local.top_level
                     >>  !(  qbk_ver(106u)
                         >>  cl::ch_p(']')
                         >>  cl::eps_p   [error("Mismatched close bracket")]
                         )
                     )
-                )                       [end_blocks]
+                ]                       [end_blocks]
             ;
 
         // Blocks contains within an element, e.g. a table cell or a footnote.
@@ -468,7 +473,9 @@ namespace quickbook
             [   cl::eps_p               [start_nested_blocks]
             >>  (   qbk_ver(107u)
                 >>  (*eol)
-                >>  (*local.top_level)
+                >>  scoped_block_context(element_info::in_conditional)
+                    [   *local.top_level
+                    ]
                 |   qbk_ver(0, 107u)
                 >>  local.inside_paragraph
                 )                       [end_blocks]
@@ -502,7 +509,7 @@ namespace quickbook
             cl::eps_p                           [paragraph_action]
         >>  scope_paragraph()
             [
-                scoped_context(element_info::in_top_level)
+                scoped_context(ph::var(local.block_context))
                 [   scoped_still_in_block(true)
                     [   local.syntactic_block_item(element_info::is_contextual_block)
                     >>  *(  cl::eps_p(ph::var(local.still_in_block))
-- 
2.43.0


From 4cae7ac170dee98cb1e3e04de6bbf4a2181ac6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:25 +0000
Subject: [PATCH 44/49] fix: keep the section tags of imported files to those
 files

An unclosed [section] or a stray [endsect] in an imported file changed the
current section of the importing document, although its output is dropped.
---
 src/actions.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/actions.cpp b/src/actions.cpp
index 7e2c4b1..6bc791d 100644
--- a/src/actions.cpp
+++ b/src/actions.cpp
@@ -1895,9 +1895,20 @@ namespace quickbook
             // update the __FILENAME__ macro
             state.update_filename_macro();
 
+            // The output of imported files is discarded, so their section
+            // tags mustn't change the current section.
+            int const section_level = state.document.section_level();
+            if (state.imported) state.min_section_level = section_level;
+
             // parse the file
             quickbook::parse_file(state, include_doc_id, true);
 
+            if (state.imported) {
+                while (state.document.section_level() > section_level) {
+                    state.document.end_section();
+                }
+            }
+
             // Don't restore source_mode on older versions.
             if (keep_inner_source_mode) save.source_mode = state.source_mode;
         }
-- 
2.43.0


From 964025f262c068fc3d9b5bd56fbebb11e12bb85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:25 +0000
Subject: [PATCH 45/49] fix: count the sections of documents included from
 templates from 1

In a template called inside a section the limit for [endsect] was still that
of the template, so correct documents gave a mismatched [endsect] error.
---
 src/doc_info_actions.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/doc_info_actions.cpp b/src/doc_info_actions.cpp
index 7de9a36..22a94a6 100644
--- a/src/doc_info_actions.cpp
+++ b/src/doc_info_actions.cpp
@@ -315,6 +315,10 @@ namespace quickbook
             compatibility_version, info.include_doc_id_, info.id_,
             info.doc_title);
 
+        // The sections of this document are counted from its start, also when
+        // it's included from a template.
+        state.min_section_level = state.document.section_level();
+
         // Make sure we really did have a document info block.
 
         assert(info.doc_title.check() && !info.doc_type.empty());
-- 
2.43.0


From d4292961253b5a1ae4dcc79065b496719482e587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:08 +0000
Subject: [PATCH 46/49] fix: require the sections of files included in lists
 and the like to balance

A section left open by a file that was included in a list item or nested
block was closed outside of it, so the output wasn't well formed.
---
 src/main_grammar.cpp | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/main_grammar.cpp b/src/main_grammar.cpp
index b5509ec..a142d15 100644
--- a/src/main_grammar.cpp
+++ b/src/main_grammar.cpp
@@ -17,6 +17,7 @@
 #include <boost/spirit/include/phoenix1_primitives.hpp>
 #include "actions.hpp"
 #include "block_tags.hpp"
+#include "document_state.hpp"
 #include "grammar_impl.hpp"
 #include "parsers.hpp"
 #include "phrase_tags.hpp"
@@ -164,7 +165,11 @@ namespace quickbook
     struct process_element_impl : scoped_action_base
     {
         process_element_impl(main_grammar_local& l_)
-            : l(l_), pushed_source_mode_(false), element_context_error_(false)
+            : l(l_)
+            , pushed_source_mode_(false)
+            , element_context_error_(false)
+            , section_level_(0)
+            , saved_min_section_level_(0)
         {
         }
 
@@ -193,6 +198,16 @@ namespace quickbook
 
             assert(l.state_.values.builder.empty());
 
+            // If sections aren't allowed in this context, then the sections of
+            // a file that's included here have to be balanced.
+            if (info_.type == element_info::conditional_or_block &&
+                !(l.context & element_info::section_block) &&
+                l.state_.document.is_started()) {
+                section_level_ = l.state_.document.section_level();
+                saved_min_section_level_ = l.state_.min_section_level;
+                l.state_.min_section_level = section_level_;
+            }
+
             if (l.state_.source_mode_next &&
                 info_.type != element_info::maybe_block) {
                 l.state_.push_tagged_source_mode(l.state_.source_mode_next);
@@ -212,6 +227,14 @@ namespace quickbook
                 error(scan.first, scan.first);
                 return true;
             }
+            else if (
+                section_level_ &&
+                l.state_.document.section_level() != section_level_) {
+                error_message_action error(
+                    l.state_, "Mismatched sections in nested block.");
+                error(scan.first, scan.first);
+                return true;
+            }
             else if (r) {
                 return true;
             }
@@ -238,12 +261,16 @@ namespace quickbook
         void cleanup()
         {
             if (pushed_source_mode_) l.state_.pop_tagged_source_mode();
+            if (section_level_)
+                l.state_.min_section_level = saved_min_section_level_;
         }
 
         main_grammar_local& l;
         element_info info_;
         bool pushed_source_mode_;
         bool element_context_error_;
+        int section_level_;
+        int saved_min_section_level_;
     };
 
     struct scoped_paragraph : scoped_action_base
-- 
2.43.0


From 2014f3e5e02726acd8d8a410bfd555bef2a4753c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:36 +0000
Subject: [PATCH 47/49] fix: pretty print code blocks within preformatted
 blocks

---
 src/post_process.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/post_process.cpp b/src/post_process.cpp
index f101bee..03b9c78 100644
--- a/src/post_process.cpp
+++ b/src/post_process.cpp
@@ -263,12 +263,12 @@ namespace quickbook
                     >>  cl::lexeme_d[cl::str_p("pre")]
                     >>  *(cl::anychar_p - '>')
                     >>  ">"
-                    >>  *(cl::anychar_p - "</pre>")
+                    >>  *(code | (cl::anychar_p - "<pre" - "</pre>"))
                     >>  "</pre"
                     >>  cl::lexeme_d[">" >> *cl::space_p]
                     |   cl::eps_p(!ph::var(self.is_html))
                     >>   "<programlisting>"
-                    >>  *(cl::anychar_p - "</programlisting>")
+                    >>  *(code | (cl::anychar_p - "<programlisting>" - "</programlisting>"))
                     >>  "</programlisting"
                     >>  cl::lexeme_d[">" >> *cl::space_p]
                     ;
-- 
2.43.0


From d007b3ff873d143c9a2bfee6fb088bd4934199db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:42 +0000
Subject: [PATCH 48/49] fix: let lists in nested blocks start with an indented
 item

Items further left than the first one of a list in a block such as [note]
were reported as an illegal change of list style.
---
 src/main_grammar.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/main_grammar.cpp b/src/main_grammar.cpp
index a142d15..8b85b7c 100644
--- a/src/main_grammar.cpp
+++ b/src/main_grammar.cpp
@@ -1325,8 +1325,6 @@ namespace quickbook
             state_.end_list_item();
         }
         else {
-            // This should never reach root, since the first list
-            // has indentation 0.
             while (list_stack.top().type == list_stack_item::syntactic_list &&
                    new_indent < list_stack.top().indent) {
                 state_.end_list_item();
@@ -1334,7 +1332,16 @@ namespace quickbook
                 list_stack.pop();
             }
 
-            state_.end_list_item();
+            if (list_stack.top().type == list_stack_item::syntactic_list) {
+                state_.end_list_item();
+            }
+            else {
+                // The first list in a nested block can be indented, so this
+                // is to the left of it.
+                list_stack.push(
+                    list_stack_item(list_mark, new_indent, new_indent2));
+                state_.start_list(list_mark);
+            }
         }
 
         list_indent = new_indent;
-- 
2.43.0


From 3a40062d3fb685c2e8fc2ddc83993e1eb71d7a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:40 +0000
Subject: [PATCH 49/49] fix: Honour the --no-output option

It was accepted and documented, but never read, so the output was written
anyway. As documented, an explicit output file or directory overrides it.
---
 src/quickbook.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/quickbook.cpp b/src/quickbook.cpp
index 3fac3d6..3d467f3 100644
--- a/src/quickbook.cpp
+++ b/src/quickbook.cpp
@@ -647,7 +647,8 @@ int main(int argc, char* argv[])
             }
 
             if (!vm.count("output-file") && !vm.count("output-dir")) {
-                if (!output_specified && alt_output_specified) {
+                if (vm.count("no-output") ||
+                    (!output_specified && alt_output_specified)) {
                     options.style =
                         quickbook::parse_document_options::output_none;
                 }
-- 
2.43.0

