From c5b6d11196be2a01fb8cdf8785402d9f9a02aa3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:24 +0000
Subject: [PATCH 01/33] fix: do not unescape while looking for a delimiter

match_delimiter unescaped at the wrong position if spacing was skipped
before the escape ('a \\b' lost the space and kept the escape) and also
unescaped behind a closing quote, which hid mismatched quotes.
---
 include/ss/splitter.hpp | 8 +++++---
 ssp.hpp                 | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/ss/splitter.hpp b/include/ss/splitter.hpp
index 0f06499..aad5a79 100644
--- a/include/ss/splitter.hpp
+++ b/include/ss/splitter.hpp
@@ -246,8 +246,9 @@ private:
 
         // not a delimiter
         if (!match(end, delim)) {
-            shift_if_escaped(end);
-            return {1 + end - begin, false};
+            // skipped spacing belongs to the field, the character
+            // behind it still needs to be inspected
+            return {(end == begin) ? 1 : end - begin, false};
         }
 
         end += delimiter_size(delim);
@@ -261,7 +262,7 @@ private:
     // shifting
     ////////////////
 
-    void shift_if_escaped(line_ptr_type& curr) {
+    void shift_if_escaped(line_ptr_type curr) {
         if constexpr (escape::enabled) {
             if (escape::match(*curr)) {
                 if (curr[1] == '\0') {
@@ -374,6 +375,7 @@ private:
                     done_ = true;
                     break;
                 } else {
+                    shift_if_escaped(end_);
                     end_ += width;
                     continue;
                 }
diff --git a/ssp.hpp b/ssp.hpp
index 0fc4cd3..59b0fd5 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -1301,8 +1301,9 @@ private:
 
         // not a delimiter
         if (!match(end, delim)) {
-            shift_if_escaped(end);
-            return {1 + end - begin, false};
+            // skipped spacing belongs to the field, the character
+            // behind it still needs to be inspected
+            return {(end == begin) ? 1 : end - begin, false};
         }
 
         end += delimiter_size(delim);
@@ -1316,7 +1317,7 @@ private:
     // shifting
     ////////////////
 
-    void shift_if_escaped(line_ptr_type& curr) {
+    void shift_if_escaped(line_ptr_type curr) {
         if constexpr (escape::enabled) {
             if (escape::match(*curr)) {
                 if (curr[1] == '\0') {
@@ -1429,6 +1430,7 @@ private:
                     done_ = true;
                     break;
                 } else {
+                    shift_if_escaped(end_);
                     end_ += width;
                     continue;
                 }
-- 
2.43.0


From c1804130990122ca66982768295f5dd5d5ff8113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:53 +0000
Subject: [PATCH 02/33] fix: reject unterminated quotes and escapes when
 converting with multiline

A line which was never continued was converted as if it were complete,
multiline should have no impact on the converter.
---
 include/ss/converter.hpp |  7 +++++++
 include/ss/splitter.hpp  |  8 ++------
 ssp.hpp                  | 15 +++++++++------
 3 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/include/ss/converter.hpp b/include/ss/converter.hpp
index 06e67d2..e7fcfd1 100644
--- a/include/ss/converter.hpp
+++ b/include/ss/converter.hpp
@@ -362,6 +362,13 @@ private:
             return {};
         }
 
+        // with multiline enabled the splitter does not treat an unterminated
+        // quote as an error since the line could be continued (resplit)
+        if (unterminated_quote()) {
+            handle_error_unterminated_quote();
+            return {};
+        }
+
         if (!columns_mapped()) {
             if (sizeof...(Ts) != elems.size()) {
                 handle_error_number_of_columns(sizeof...(Ts), elems.size());
diff --git a/include/ss/splitter.hpp b/include/ss/splitter.hpp
index aad5a79..5cf871e 100644
--- a/include/ss/splitter.hpp
+++ b/include/ss/splitter.hpp
@@ -266,9 +266,7 @@ private:
         if constexpr (escape::enabled) {
             if (escape::match(*curr)) {
                 if (curr[1] == '\0') {
-                    if constexpr (!multiline::enabled) {
-                        handle_error_unterminated_escape();
-                    }
+                    handle_error_unterminated_escape();
                     done_ = true;
                     return;
                 }
@@ -397,9 +395,7 @@ private:
                             if (end_[1] == '\0') {
                                 // eol, unterminated escape
                                 // eg: ... "hel\\0
-                                if constexpr (!multiline::enabled) {
-                                    handle_error_unterminated_escape();
-                                }
+                                handle_error_unterminated_escape();
                                 done_ = true;
                                 break;
                             }
diff --git a/ssp.hpp b/ssp.hpp
index 59b0fd5..ff1c386 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -1321,9 +1321,7 @@ private:
         if constexpr (escape::enabled) {
             if (escape::match(*curr)) {
                 if (curr[1] == '\0') {
-                    if constexpr (!multiline::enabled) {
-                        handle_error_unterminated_escape();
-                    }
+                    handle_error_unterminated_escape();
                     done_ = true;
                     return;
                 }
@@ -1452,9 +1450,7 @@ private:
                             if (end_[1] == '\0') {
                                 // eol, unterminated escape
                                 // eg: ... "hel\\0
-                                if constexpr (!multiline::enabled) {
-                                    handle_error_unterminated_escape();
-                                }
+                                handle_error_unterminated_escape();
                                 done_ = true;
                                 break;
                             }
@@ -2148,6 +2144,13 @@ private:
             return {};
         }
 
+        // with multiline enabled the splitter does not treat an unterminated
+        // quote as an error since the line could be continued (resplit)
+        if (unterminated_quote()) {
+            handle_error_unterminated_quote();
+            return {};
+        }
+
         if (!columns_mapped()) {
             if (sizeof...(Ts) != elems.size()) {
                 handle_error_number_of_columns(sizeof...(Ts), elems.size());
-- 
2.43.0


From 33ee22bfb672c4606dde42c78c46a9d80858e03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:53 +0000
Subject: [PATCH 03/33] fix: keep a failed multiline row invalid for substitute
 conversions

Reaching the multiline limit or the end of the file within a multiline row
only invalidated the converter, so or_else converted whatever was left of
the split and succeeded.
---
 include/ss/converter.hpp | 34 +++++------------------------
 include/ss/splitter.hpp  | 13 +++++++++++
 ssp.hpp                  | 47 ++++++++++++++++------------------------
 3 files changed, 38 insertions(+), 56 deletions(-)

diff --git a/include/ss/converter.hpp b/include/ss/converter.hpp
index e7fcfd1..73d2b1b 100644
--- a/include/ss/converter.hpp
+++ b/include/ss/converter.hpp
@@ -247,41 +247,19 @@ private:
     }
 
     void handle_error_unterminated_escape() {
-        if constexpr (string_error) {
-            error_.clear();
-            splitter_.handle_error_unterminated_escape();
-            error_.append(splitter_.error_msg());
-        } else if constexpr (throw_on_error) {
-            splitter_.handle_error_unterminated_escape();
-        } else {
-            error_ = true;
-        }
+        splitter_.handle_error_unterminated_escape();
+        handle_error_bad_split();
     }
 
     void handle_error_unterminated_quote() {
-        if constexpr (string_error) {
-            error_.clear();
-            splitter_.handle_error_unterminated_quote();
-            error_.append(splitter_.error_msg());
-        } else if constexpr (throw_on_error) {
-            splitter_.handle_error_unterminated_quote();
-        } else {
-            error_ = true;
-        }
+        splitter_.handle_error_unterminated_quote();
+        handle_error_bad_split();
     }
 
     void handle_error_multiline_limit_reached() {
-        constexpr static auto error_msg = "multiline limit reached";
         splitter_.unterminated_quote_ = false;
-
-        if constexpr (string_error) {
-            error_.clear();
-            error_.append(error_msg);
-        } else if constexpr (throw_on_error) {
-            throw ss::exception{error_msg};
-        } else {
-            error_ = true;
-        }
+        splitter_.handle_error_multiline_limit_reached();
+        handle_error_bad_split();
     }
 
     void handle_error_invalid_conversion(const string_range msg, size_t pos) {
diff --git a/include/ss/splitter.hpp b/include/ss/splitter.hpp
index 5cf871e..18a7cbe 100644
--- a/include/ss/splitter.hpp
+++ b/include/ss/splitter.hpp
@@ -181,6 +181,19 @@ private:
         }
     }
 
+    void handle_error_multiline_limit_reached() {
+        constexpr static auto error_msg = "multiline limit reached";
+
+        if constexpr (string_error) {
+            error_.clear();
+            error_.append(error_msg);
+        } else if constexpr (throw_on_error) {
+            throw ss::exception{error_msg};
+        } else {
+            error_ = true;
+        }
+    }
+
     void handle_error_invalid_resplit() {
         constexpr static auto error_msg =
             "invalid resplit, new line must be longer"
diff --git a/ssp.hpp b/ssp.hpp
index ff1c386..fca6eb1 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -1236,6 +1236,19 @@ private:
         }
     }
 
+    void handle_error_multiline_limit_reached() {
+        constexpr static auto error_msg = "multiline limit reached";
+
+        if constexpr (string_error) {
+            error_.clear();
+            error_.append(error_msg);
+        } else if constexpr (throw_on_error) {
+            throw ss::exception{error_msg};
+        } else {
+            error_ = true;
+        }
+    }
+
     void handle_error_invalid_resplit() {
         constexpr static auto error_msg =
             "invalid resplit, new line must be longer"
@@ -2029,41 +2042,19 @@ private:
     }
 
     void handle_error_unterminated_escape() {
-        if constexpr (string_error) {
-            error_.clear();
-            splitter_.handle_error_unterminated_escape();
-            error_.append(splitter_.error_msg());
-        } else if constexpr (throw_on_error) {
-            splitter_.handle_error_unterminated_escape();
-        } else {
-            error_ = true;
-        }
+        splitter_.handle_error_unterminated_escape();
+        handle_error_bad_split();
     }
 
     void handle_error_unterminated_quote() {
-        if constexpr (string_error) {
-            error_.clear();
-            splitter_.handle_error_unterminated_quote();
-            error_.append(splitter_.error_msg());
-        } else if constexpr (throw_on_error) {
-            splitter_.handle_error_unterminated_quote();
-        } else {
-            error_ = true;
-        }
+        splitter_.handle_error_unterminated_quote();
+        handle_error_bad_split();
     }
 
     void handle_error_multiline_limit_reached() {
-        constexpr static auto error_msg = "multiline limit reached";
         splitter_.unterminated_quote_ = false;
-
-        if constexpr (string_error) {
-            error_.clear();
-            error_.append(error_msg);
-        } else if constexpr (throw_on_error) {
-            throw ss::exception{error_msg};
-        } else {
-            error_ = true;
-        }
+        splitter_.handle_error_multiline_limit_reached();
+        handle_error_bad_split();
     }
 
     void handle_error_invalid_conversion(const string_range msg, size_t pos) {
-- 
2.43.0


From 237189dc8047eab05748611df8ade56d54421b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:53 +0000
Subject: [PATCH 04/33] fix: clear the previous split error when splitting an
 empty line

The result of converting an empty line depended on whether the previously
split line was malformed.
---
 include/ss/converter.hpp | 1 +
 ssp.hpp                  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/ss/converter.hpp b/include/ss/converter.hpp
index 73d2b1b..92c45e7 100644
--- a/include/ss/converter.hpp
+++ b/include/ss/converter.hpp
@@ -192,6 +192,7 @@ public:
                             const std::string& delim = default_delimiter) {
         splitter_.clear_split_data();
         if (line[0] == '\0') {
+            splitter_.clear_error();
             return splitter_.get_split_data();
         }
 
diff --git a/ssp.hpp b/ssp.hpp
index fca6eb1..c8f8b8b 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -1987,6 +1987,7 @@ public:
                             const std::string& delim = default_delimiter) {
         splitter_.clear_split_data();
         if (line[0] == '\0') {
+            splitter_.clear_error();
             return splitter_.get_split_data();
         }
 
-- 
2.43.0


From 0503f73cfbcdf21acdd73e5cba310cb7160eda2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:53 +0000
Subject: [PATCH 05/33] fix: do not resurrect old rows when reading past the
 end of the file

Reading at the end of the file swapped the row buffers, so try_next
followed by or_else returned an already processed row as a new valid one,
stale errors were reported again and the line counter kept growing.
---
 include/ss/parser.hpp | 35 +++++++++++++++++++++--------------
 ssp.hpp               | 35 +++++++++++++++++++++--------------
 2 files changed, 42 insertions(+), 28 deletions(-)

diff --git a/include/ss/parser.hpp b/include/ss/parser.hpp
index b054328..926a624 100644
--- a/include/ss/parser.hpp
+++ b/include/ss/parser.hpp
@@ -114,17 +114,23 @@ public:
 
     template <typename T, typename... Ts>
     [[nodiscard]] no_void_validator_tup_t<T, Ts...> get_next() {
-        if (!eof_) {
-            if constexpr (throw_on_error) {
-                try {
-                    reader_.parse();
-                } catch (const ss::exception& e) {
-                    read_line();
-                    decorate_rethrow(e);
-                }
-            } else {
+        if (eof_) {
+            row_available_ = false;
+            handle_error_eof_reached();
+            return {};
+        }
+
+        row_available_ = true;
+
+        if constexpr (throw_on_error) {
+            try {
                 reader_.parse();
+            } catch (const ss::exception& e) {
+                read_line();
+                decorate_rethrow(e);
             }
+        } else {
+            reader_.parse();
         }
 
         reader_.update();
@@ -136,11 +142,6 @@ public:
 
         clear_error();
 
-        if (eof_) {
-            handle_error_eof_reached();
-            return {};
-        }
-
         if constexpr (throw_on_error) {
             try {
                 auto value = reader_.converter_.template convert<T, Ts...>();
@@ -431,6 +432,11 @@ public:
         template <typename U, typename... Us>
         [[nodiscard]] no_void_validator_tup_t<U, Us...> try_same() {
             parser_.clear_error();
+            if (!parser_.row_available_) {
+                parser_.handle_error_eof_reached();
+                return {};
+            }
+
             auto value =
                 parser_.reader_.converter_.template convert<U, Us...>();
             if (!parser_.reader_.converter_.valid()) {
@@ -1059,6 +1065,7 @@ private:
     std::vector<std::string> header_;
     std::string raw_header_;
     bool eof_{false};
+    bool row_available_{false};
 };
 
 } /* namespace ss */
diff --git a/ssp.hpp b/ssp.hpp
index c8f8b8b..33f8821 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -2385,17 +2385,23 @@ public:
 
     template <typename T, typename... Ts>
     [[nodiscard]] no_void_validator_tup_t<T, Ts...> get_next() {
-        if (!eof_) {
-            if constexpr (throw_on_error) {
-                try {
-                    reader_.parse();
-                } catch (const ss::exception& e) {
-                    read_line();
-                    decorate_rethrow(e);
-                }
-            } else {
+        if (eof_) {
+            row_available_ = false;
+            handle_error_eof_reached();
+            return {};
+        }
+
+        row_available_ = true;
+
+        if constexpr (throw_on_error) {
+            try {
                 reader_.parse();
+            } catch (const ss::exception& e) {
+                read_line();
+                decorate_rethrow(e);
             }
+        } else {
+            reader_.parse();
         }
 
         reader_.update();
@@ -2407,11 +2413,6 @@ public:
 
         clear_error();
 
-        if (eof_) {
-            handle_error_eof_reached();
-            return {};
-        }
-
         if constexpr (throw_on_error) {
             try {
                 auto value = reader_.converter_.template convert<T, Ts...>();
@@ -2702,6 +2703,11 @@ public:
         template <typename U, typename... Us>
         [[nodiscard]] no_void_validator_tup_t<U, Us...> try_same() {
             parser_.clear_error();
+            if (!parser_.row_available_) {
+                parser_.handle_error_eof_reached();
+                return {};
+            }
+
             auto value =
                 parser_.reader_.converter_.template convert<U, Us...>();
             if (!parser_.reader_.converter_.valid()) {
@@ -3330,6 +3336,7 @@ private:
     std::vector<std::string> header_;
     std::string raw_header_;
     bool eof_{false};
+    bool row_available_{false};
 };
 
 } /* namespace ss */
-- 
2.43.0


From 9be6c3e6b78930a7d762ffe7efcbaaadb1c37265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:29 +0000
Subject: [PATCH 06/33] fix: update eof when ignoring rows

A file consisting only of a header reported one additional invalid row if
the header was ignored, and ignoring rows at the end of the file kept
incrementing the line number.
---
 include/ss/parser.hpp | 15 +++++++++++----
 ssp.hpp               | 15 +++++++++++----
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/include/ss/parser.hpp b/include/ss/parser.hpp
index 926a624..0158fd8 100644
--- a/include/ss/parser.hpp
+++ b/include/ss/parser.hpp
@@ -40,7 +40,7 @@ public:
         if (reader_.file_) {
             read_line();
             if constexpr (ignore_header) {
-                ignore_next();
+                ignore_line();
             } else {
                 raw_header_ = reader_.get_buffer();
             }
@@ -57,7 +57,7 @@ public:
         if (csv_data_buffer) {
             read_line();
             if constexpr (ignore_header) {
-                ignore_next();
+                ignore_line();
             } else {
                 raw_header_ = reader_.get_buffer();
             }
@@ -95,7 +95,8 @@ public:
     }
 
     bool ignore_next() {
-        return reader_.read_next();
+        ignore_line();
+        return !eof_;
     }
 
     template <typename T, typename... Ts>
@@ -245,7 +246,7 @@ public:
                                                         header_.size());
 
         if (line() == 0) {
-            ignore_next();
+            ignore_line();
         }
     }
 
@@ -767,6 +768,12 @@ private:
         eof_ = !reader_.read_next();
     }
 
+    void ignore_line() {
+        if (!eof_) {
+            read_line();
+        }
+    }
+
     struct reader {
         reader(const std::string& file_name_, std::string delim)
             : delim_{std::move(delim)},
diff --git a/ssp.hpp b/ssp.hpp
index 33f8821..ab2931b 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -2311,7 +2311,7 @@ public:
         if (reader_.file_) {
             read_line();
             if constexpr (ignore_header) {
-                ignore_next();
+                ignore_line();
             } else {
                 raw_header_ = reader_.get_buffer();
             }
@@ -2328,7 +2328,7 @@ public:
         if (csv_data_buffer) {
             read_line();
             if constexpr (ignore_header) {
-                ignore_next();
+                ignore_line();
             } else {
                 raw_header_ = reader_.get_buffer();
             }
@@ -2366,7 +2366,8 @@ public:
     }
 
     bool ignore_next() {
-        return reader_.read_next();
+        ignore_line();
+        return !eof_;
     }
 
     template <typename T, typename... Ts>
@@ -2516,7 +2517,7 @@ public:
                                                         header_.size());
 
         if (line() == 0) {
-            ignore_next();
+            ignore_line();
         }
     }
 
@@ -3038,6 +3039,12 @@ private:
         eof_ = !reader_.read_next();
     }
 
+    void ignore_line() {
+        if (!eof_) {
+            read_line();
+        }
+    }
+
     struct reader {
         reader(const std::string& file_name_, std::string delim)
             : delim_{std::move(delim)},
-- 
2.43.0


From dcda8539c5f6d939dd56cf6bdb87de40ca69e932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:29 +0000
Subject: [PATCH 07/33] fix: ignore whole multiline rows within ignore_next

Only the first line of the row was ignored, the rest of it was returned as
a new row.
---
 include/ss/parser.hpp | 12 +++++++++++-
 ssp.hpp               | 12 +++++++++++-
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/include/ss/parser.hpp b/include/ss/parser.hpp
index 0158fd8..096c018 100644
--- a/include/ss/parser.hpp
+++ b/include/ss/parser.hpp
@@ -95,7 +95,17 @@ public:
     }
 
     bool ignore_next() {
-        ignore_line();
+        if (!eof_) {
+            if constexpr (multiline::enabled) {
+                // the ignored row may span over multiple lines
+                try {
+                    reader_.parse();
+                } catch (const ss::exception&) {
+                    // its content is not of interest
+                }
+            }
+            read_line();
+        }
         return !eof_;
     }
 
diff --git a/ssp.hpp b/ssp.hpp
index ab2931b..0c60d29 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -2366,7 +2366,17 @@ public:
     }
 
     bool ignore_next() {
-        ignore_line();
+        if (!eof_) {
+            if constexpr (multiline::enabled) {
+                // the ignored row may span over multiple lines
+                try {
+                    reader_.parse();
+                } catch (const ss::exception&) {
+                    // its content is not of interest
+                }
+            }
+            read_line();
+        }
         return !eof_;
     }
 
-- 
2.43.0


From 8b9169747c0a9d7b33ead8492180d3a1bd365e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:29 +0000
Subject: [PATCH 08/33] fix: skip the header when it is preceded by ignored
 empty lines

use_fields returned the header as the first row if ignore_empty was enabled
and the file began with empty lines.
---
 include/ss/parser.hpp | 5 ++++-
 ssp.hpp               | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/ss/parser.hpp b/include/ss/parser.hpp
index 096c018..22bcdf9 100644
--- a/include/ss/parser.hpp
+++ b/include/ss/parser.hpp
@@ -43,6 +43,7 @@ public:
                 ignore_line();
             } else {
                 raw_header_ = reader_.get_buffer();
+                header_line_ = line();
             }
         } else {
             handle_error_file_not_open();
@@ -60,6 +61,7 @@ public:
                 ignore_line();
             } else {
                 raw_header_ = reader_.get_buffer();
+                header_line_ = line();
             }
         } else {
             handle_error_null_buffer();
@@ -255,7 +257,7 @@ public:
         reader_.next_line_converter_.set_column_mapping(column_mappings,
                                                         header_.size());
 
-        if (line() == 0) {
+        if (line() == header_line_) {
             ignore_line();
         }
     }
@@ -1081,6 +1083,7 @@ private:
     reader reader_;
     std::vector<std::string> header_;
     std::string raw_header_;
+    size_t header_line_{0};
     bool eof_{false};
     bool row_available_{false};
 };
diff --git a/ssp.hpp b/ssp.hpp
index 0c60d29..091b795 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -2314,6 +2314,7 @@ public:
                 ignore_line();
             } else {
                 raw_header_ = reader_.get_buffer();
+                header_line_ = line();
             }
         } else {
             handle_error_file_not_open();
@@ -2331,6 +2332,7 @@ public:
                 ignore_line();
             } else {
                 raw_header_ = reader_.get_buffer();
+                header_line_ = line();
             }
         } else {
             handle_error_null_buffer();
@@ -2526,7 +2528,7 @@ public:
         reader_.next_line_converter_.set_column_mapping(column_mappings,
                                                         header_.size());
 
-        if (line() == 0) {
+        if (line() == header_line_) {
             ignore_line();
         }
     }
@@ -3352,6 +3354,7 @@ private:
     reader reader_;
     std::vector<std::string> header_;
     std::string raw_header_;
+    size_t header_line_{0};
     bool eof_{false};
     bool row_available_{false};
 };
-- 
2.43.0


From 779a5a8bae3286f03fb31c91e8520e0e48b27601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:29 +0000
Subject: [PATCH 09/33] fix: report the line of the invalid row in exceptions

The line number was taken after the next row was read, with ignore_empty
enabled it differed from the one reported by string_error.
---
 include/ss/parser.hpp | 10 ++++++----
 ssp.hpp               | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/ss/parser.hpp b/include/ss/parser.hpp
index 22bcdf9..33635da 100644
--- a/include/ss/parser.hpp
+++ b/include/ss/parser.hpp
@@ -139,8 +139,9 @@ public:
             try {
                 reader_.parse();
             } catch (const ss::exception& e) {
+                const auto line_number = reader_.line_number_;
                 read_line();
-                decorate_rethrow(e);
+                decorate_rethrow(e, line_number);
             }
         } else {
             reader_.parse();
@@ -161,8 +162,9 @@ public:
                 read_line();
                 return value;
             } catch (const ss::exception& e) {
+                const auto line_number = reader_.line_number_;
                 read_line();
-                decorate_rethrow(e);
+                decorate_rethrow(e, line_number);
             }
         }
 
@@ -762,12 +764,12 @@ private:
                                 .append(e.what())};
     }
 
-    void decorate_rethrow(const ss::exception& e) const {
+    void decorate_rethrow(const ss::exception& e, size_t line_number) const {
         static_assert(throw_on_error,
                       "throw_on_error needs to be enabled to use this method");
         throw ss::exception{std::string{file_name_}
                                 .append(" ")
-                                .append(std::to_string(line()))
+                                .append(std::to_string(line_number))
                                 .append(": ")
                                 .append(e.what())};
     }
diff --git a/ssp.hpp b/ssp.hpp
index 091b795..fa22d8c 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -2410,8 +2410,9 @@ public:
             try {
                 reader_.parse();
             } catch (const ss::exception& e) {
+                const auto line_number = reader_.line_number_;
                 read_line();
-                decorate_rethrow(e);
+                decorate_rethrow(e, line_number);
             }
         } else {
             reader_.parse();
@@ -2432,8 +2433,9 @@ public:
                 read_line();
                 return value;
             } catch (const ss::exception& e) {
+                const auto line_number = reader_.line_number_;
                 read_line();
-                decorate_rethrow(e);
+                decorate_rethrow(e, line_number);
             }
         }
 
@@ -3033,12 +3035,12 @@ private:
                                 .append(e.what())};
     }
 
-    void decorate_rethrow(const ss::exception& e) const {
+    void decorate_rethrow(const ss::exception& e, size_t line_number) const {
         static_assert(throw_on_error,
                       "throw_on_error needs to be enabled to use this method");
         throw ss::exception{std::string{file_name_}
                                 .append(" ")
-                                .append(std::to_string(line()))
+                                .append(std::to_string(line_number))
                                 .append(": ")
                                 .append(e.what())};
     }
-- 
2.43.0


From e8af3c72dc1308bae4b933ebc4e5e651e1e592b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:29 +0000
Subject: [PATCH 10/33] fix: discard the header before throwing because of a
 duplicate field

With throw_on_error the partially parsed header was kept and used by the
next call of use_fields or field_exists.
---
 include/ss/parser.hpp | 2 +-
 ssp.hpp               | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ss/parser.hpp b/include/ss/parser.hpp
index 33635da..bc4aebc 100644
--- a/include/ss/parser.hpp
+++ b/include/ss/parser.hpp
@@ -581,8 +581,8 @@ private:
             std::string field{begin, end};
             if (std::find(header_.begin(), header_.end(), field) !=
                 header_.end()) {
-                handle_error_duplicate_header_field(field);
                 header_.clear();
+                handle_error_duplicate_header_field(field);
                 return;
             }
             header_.push_back(std::move(field));
diff --git a/ssp.hpp b/ssp.hpp
index fa22d8c..c40b1d9 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -2852,8 +2852,8 @@ private:
             std::string field{begin, end};
             if (std::find(header_.begin(), header_.end(), field) !=
                 header_.end()) {
-                handle_error_duplicate_header_field(field);
                 header_.clear();
+                handle_error_duplicate_header_field(field);
                 return;
             }
             header_.push_back(std::move(field));
-- 
2.43.0


From a9dfcca26233c1b18fd1be0b5634871db33a40fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:29 +0000
Subject: [PATCH 11/33] fix: disable multiline for the header within predefined
 setups

A header with an unterminated quote was accepted if multiline was part of
an ss::setup.
---
 include/ss/parser.hpp |  3 +--
 include/ss/setup.hpp  | 13 +++++++++++++
 ssp.hpp               | 16 ++++++++++++++--
 3 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/include/ss/parser.hpp b/include/ss/parser.hpp
index bc4aebc..77cefa1 100644
--- a/include/ss/parser.hpp
+++ b/include/ss/parser.hpp
@@ -31,8 +31,7 @@ class parser {
 
     constexpr static bool ignore_empty = setup<Options...>::ignore_empty;
 
-    using header_splitter = ss::splitter<
-        ss::filter_not_t<ss::is_instance_of_multiline, Options...>>;
+    using header_splitter = ss::splitter<ss::no_multiline_t<Options...>>;
 
 public:
     parser(std::string file_name, std::string delim = ss::default_delimiter)
diff --git a/include/ss/setup.hpp b/include/ss/setup.hpp
index d0172ba..8a30108 100644
--- a/include/ss/setup.hpp
+++ b/include/ss/setup.hpp
@@ -158,6 +158,16 @@ struct get_multiline<> {
     using type = multiline_restricted<0, false>;
 };
 
+// options without multiline, predefined setups are unwrapped
+template <typename... Options>
+struct no_multiline : filter_not<is_instance_of_multiline, Options...> {};
+
+template <typename... Options>
+struct no_multiline<std::tuple<Options...>> : no_multiline<Options...> {};
+
+template <typename... Options>
+using no_multiline_t = typename no_multiline<Options...>::type;
+
 template <typename... Ts>
 using get_multiline_t = typename get_multiline<Ts...>::type;
 
@@ -296,4 +306,7 @@ struct setup<setup<Options...>> : setup<Options...> {};
 template <typename... Options>
 struct setup<std::tuple<Options...>> : setup<Options...> {};
 
+template <typename... Options>
+struct no_multiline<setup<Options...>> : no_multiline<Options...> {};
+
 } /* namespace ss */
diff --git a/ssp.hpp b/ssp.hpp
index c40b1d9..e0b6162 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -923,6 +923,16 @@ struct get_multiline<> {
     using type = multiline_restricted<0, false>;
 };
 
+// options without multiline, predefined setups are unwrapped
+template <typename... Options>
+struct no_multiline : filter_not<is_instance_of_multiline, Options...> {};
+
+template <typename... Options>
+struct no_multiline<std::tuple<Options...>> : no_multiline<Options...> {};
+
+template <typename... Options>
+using no_multiline_t = typename no_multiline<Options...>::type;
+
 template <typename... Ts>
 using get_multiline_t = typename get_multiline<Ts...>::type;
 
@@ -1061,6 +1071,9 @@ struct setup<setup<Options...>> : setup<Options...> {};
 template <typename... Options>
 struct setup<std::tuple<Options...>> : setup<Options...> {};
 
+template <typename... Options>
+struct no_multiline<setup<Options...>> : no_multiline<Options...> {};
+
 } /* namespace ss */
 
 namespace ss {
@@ -2302,8 +2315,7 @@ class parser {
 
     constexpr static bool ignore_empty = setup<Options...>::ignore_empty;
 
-    using header_splitter = ss::splitter<
-        ss::filter_not_t<ss::is_instance_of_multiline, Options...>>;
+    using header_splitter = ss::splitter<ss::no_multiline_t<Options...>>;
 
 public:
     parser(std::string file_name, std::string delim = ss::default_delimiter)
-- 
2.43.0


From fa5132d80c6225d400ae9d55f321cab632bbd235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:30 +0000
Subject: [PATCH 12/33] fix: do not rely on a stale errno nor move the cursor
 back at eof

An unrelated ENOMEM left in errno turned the end of the input into a
std::bad_alloc, and the position was decremented each time the end of the
file was read.
---
 include/ss/common.hpp | 16 +++++++---------
 ssp.hpp               | 16 +++++++---------
 2 files changed, 14 insertions(+), 18 deletions(-)

diff --git a/include/ss/common.hpp b/include/ss/common.hpp
index e507994..3e55c57 100644
--- a/include/ss/common.hpp
+++ b/include/ss/common.hpp
@@ -131,21 +131,19 @@ using ssize_t = intptr_t;
     size_t& curr_char) {
     ssize_t ssize = 0;
     if (file) {
+        errno = 0;
         ssize = get_line_file(buffer, buffer_size, file);
-        curr_char += ssize;
+        if (ssize != -1) {
+            curr_char += ssize;
+        } else if (errno == ENOMEM) {
+            throw std::bad_alloc{};
+        }
     } else {
         ssize = get_line_buffer(buffer, buffer_size, csv_data_buffer,
                                 csv_data_size, curr_char);
     }
 
-    if (ssize == -1) {
-        if (errno == ENOMEM) {
-            throw std::bad_alloc{};
-        }
-        return {ssize, true};
-    }
-
-    return {ssize, false};
+    return {ssize, ssize == -1};
 }
 
 } /* namespace ss */
diff --git a/ssp.hpp b/ssp.hpp
index e0b6162..a1c6d0b 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -748,21 +748,19 @@ using ssize_t = intptr_t;
     size_t& curr_char) {
     ssize_t ssize = 0;
     if (file) {
+        errno = 0;
         ssize = get_line_file(buffer, buffer_size, file);
-        curr_char += ssize;
+        if (ssize != -1) {
+            curr_char += ssize;
+        } else if (errno == ENOMEM) {
+            throw std::bad_alloc{};
+        }
     } else {
         ssize = get_line_buffer(buffer, buffer_size, csv_data_buffer,
                                 csv_data_size, curr_char);
     }
 
-    if (ssize == -1) {
-        if (errno == ENOMEM) {
-            throw std::bad_alloc{};
-        }
-        return {ssize, true};
-    }
-
-    return {ssize, false};
+    return {ssize, ssize == -1};
 }
 
 } /* namespace ss */
-- 
2.43.0


From 9e3cac63a353d11d59277a671ce16b6cfb2dc716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:30 +0000
Subject: [PATCH 13/33] fix: release the buffers and the file when move
 assigning a parser

---
 include/ss/parser.hpp | 14 ++++++++++----
 ssp.hpp               | 14 ++++++++++----
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/include/ss/parser.hpp b/include/ss/parser.hpp
index 77cefa1..09a08a7 100644
--- a/include/ss/parser.hpp
+++ b/include/ss/parser.hpp
@@ -822,6 +822,8 @@ private:
 
         reader& operator=(reader&& other) noexcept {
             if (this != &other) {
+                release();
+
                 buffer_ = other.buffer_;
                 next_line_buffer_ = other.next_line_buffer_;
                 helper_buffer_ = other.helper_buffer_;
@@ -851,6 +853,14 @@ private:
         }
 
         ~reader() {
+            release();
+        }
+
+        reader() = delete;
+        reader(const reader& other) = delete;
+        reader& operator=(const reader& other) = delete;
+
+        void release() {
             std::free(buffer_);
             std::free(next_line_buffer_);
             std::free(helper_buffer_);
@@ -860,10 +870,6 @@ private:
             }
         }
 
-        reader() = delete;
-        reader(const reader& other) = delete;
-        reader& operator=(const reader& other) = delete;
-
         // read next line each time in order to set eof_
         [[nodiscard]] bool read_next() {
             next_line_converter_.clear_error();
diff --git a/ssp.hpp b/ssp.hpp
index a1c6d0b..e46aed0 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -3104,6 +3104,8 @@ private:
 
         reader& operator=(reader&& other) noexcept {
             if (this != &other) {
+                release();
+
                 buffer_ = other.buffer_;
                 next_line_buffer_ = other.next_line_buffer_;
                 helper_buffer_ = other.helper_buffer_;
@@ -3133,6 +3135,14 @@ private:
         }
 
         ~reader() {
+            release();
+        }
+
+        reader() = delete;
+        reader(const reader& other) = delete;
+        reader& operator=(const reader& other) = delete;
+
+        void release() {
             std::free(buffer_);
             std::free(next_line_buffer_);
             std::free(helper_buffer_);
@@ -3142,10 +3152,6 @@ private:
             }
         }
 
-        reader() = delete;
-        reader(const reader& other) = delete;
-        reader& operator=(const reader& other) = delete;
-
         // read next line each time in order to set eof_
         [[nodiscard]] bool read_next() {
             next_line_converter_.clear_error();
-- 
2.43.0


From 9310fabf6722b51f97e1d3ff41b1d33adb04bbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:30 +0000
Subject: [PATCH 14/33] fix: update the buffer size only after the buffer has
 been reallocated

---
 include/ss/parser.hpp | 5 +++--
 ssp.hpp               | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/ss/parser.hpp b/include/ss/parser.hpp
index 09a08a7..409d538 100644
--- a/include/ss/parser.hpp
+++ b/include/ss/parser.hpp
@@ -1019,11 +1019,12 @@ private:
         void realloc_concat(char*& first, size_t& first_size,
                             size_t& buffer_size, const char* const second,
                             size_t second_size) {
-            buffer_size = first_size + second_size + 3;
+            const size_t new_size = first_size + second_size + 3;
             auto* new_first = static_cast<char*>(
-                strict_realloc(static_cast<void*>(first), buffer_size));
+                strict_realloc(static_cast<void*>(first), new_size));
 
             first = new_first;
+            buffer_size = new_size;
             std::copy_n(second, second_size + 1, first + first_size);
             first_size += second_size;
         }
diff --git a/ssp.hpp b/ssp.hpp
index e46aed0..964c41d 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -3301,11 +3301,12 @@ private:
         void realloc_concat(char*& first, size_t& first_size,
                             size_t& buffer_size, const char* const second,
                             size_t second_size) {
-            buffer_size = first_size + second_size + 3;
+            const size_t new_size = first_size + second_size + 3;
             auto* new_first = static_cast<char*>(
-                strict_realloc(static_cast<void*>(first), buffer_size));
+                strict_realloc(static_cast<void*>(first), new_size));
 
             first = new_first;
+            buffer_size = new_size;
             std::copy_n(second, second_size + 1, first + first_size);
             first_size += second_size;
         }
-- 
2.43.0


From 8acabfb3b3d5cc5f925a5f6b187426d3e7dd29eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:57 +0000
Subject: [PATCH 15/33] fix: do not write past the buffer when converting 64
 character floats

The terminator was written one byte behind the buffer when fast_float is
disabled.
---
 include/ss/extract.hpp | 2 +-
 ssp.hpp                | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ss/extract.hpp b/include/ss/extract.hpp
index 58cea4e..86c6016 100644
--- a/include/ss/extract.hpp
+++ b/include/ss/extract.hpp
@@ -52,7 +52,7 @@ to_num(const char* const begin, const char* const end) {
     std::string long_buff;
 
     char* buff = nullptr;
-    if (string_range > buff_max) {
+    if (string_range >= buff_max) {
         long_buff = std::string{begin, end};
         buff = long_buff.data();
     } else {
diff --git a/ssp.hpp b/ssp.hpp
index 964c41d..4f510af 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -1604,7 +1604,7 @@ to_num(const char* const begin, const char* const end) {
     std::string long_buff;
 
     char* buff = nullptr;
-    if (string_range > buff_max) {
+    if (string_range >= buff_max) {
         long_buff = std::string{begin, end};
         buff = long_buff.data();
     } else {
-- 
2.43.0


From a6f0a7094db39ac0b1144e8a197535da839d67d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:57 +0000
Subject: [PATCH 16/33] fix: accept the same floating point values without
 fast_float

An empty value was converted to 0, spacing, a plus sign and hexadecimal
values were accepted if fast_float is disabled.
---
 include/ss/extract.hpp | 27 +++++++++++++++++++++++++++
 ssp.hpp                | 27 +++++++++++++++++++++++++++
 2 files changed, 54 insertions(+)

diff --git a/include/ss/extract.hpp b/include/ss/extract.hpp
index 86c6016..2d1a038 100644
--- a/include/ss/extract.hpp
+++ b/include/ss/extract.hpp
@@ -39,12 +39,39 @@ to_num(const char* const begin, const char* const end) {
 
 #else
 
+// strtof and strtod also accept empty strings, leading spacing, a plus sign and
+// hexadecimal values, unlike fast_float
+[[nodiscard]] inline bool is_strtod_only(const char* begin,
+                                         const char* const end) {
+    if (begin != end && *begin == '-') {
+        ++begin;
+    }
+
+    if (begin == end) {
+        return true;
+    }
+
+    const bool is_digit = *begin >= '0' && *begin <= '9';
+    const bool is_special = *begin == 'i' || *begin == 'I' || *begin == 'n' ||
+                            *begin == 'N';
+    if (!is_digit && !is_special && *begin != '.') {
+        return true;
+    }
+
+    return end - begin > 1 && *begin == '0' &&
+           (begin[1] == 'x' || begin[1] == 'X');
+}
+
 template <typename T>
 [[nodiscard]] std::enable_if_t<std::is_floating_point_v<T>, std::optional<T>>
 to_num(const char* const begin, const char* const end) {
     static_assert(!std::is_same_v<T, long double>,
                   "Conversion to long double is disabled");
 
+    if (is_strtod_only(begin, end)) {
+        return std::nullopt;
+    }
+
     constexpr static auto buff_max = 64;
     std::array<char, buff_max> short_buff;
 
diff --git a/ssp.hpp b/ssp.hpp
index 4f510af..68b9b96 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -1591,12 +1591,39 @@ to_num(const char* const begin, const char* const end) {
 
 #else
 
+// strtof and strtod also accept empty strings, leading spacing, a plus sign and
+// hexadecimal values, unlike fast_float
+[[nodiscard]] inline bool is_strtod_only(const char* begin,
+                                         const char* const end) {
+    if (begin != end && *begin == '-') {
+        ++begin;
+    }
+
+    if (begin == end) {
+        return true;
+    }
+
+    const bool is_digit = *begin >= '0' && *begin <= '9';
+    const bool is_special = *begin == 'i' || *begin == 'I' || *begin == 'n' ||
+                            *begin == 'N';
+    if (!is_digit && !is_special && *begin != '.') {
+        return true;
+    }
+
+    return end - begin > 1 && *begin == '0' &&
+           (begin[1] == 'x' || begin[1] == 'X');
+}
+
 template <typename T>
 [[nodiscard]] std::enable_if_t<std::is_floating_point_v<T>, std::optional<T>>
 to_num(const char* const begin, const char* const end) {
     static_assert(!std::is_same_v<T, long double>,
                   "Conversion to long double is disabled");
 
+    if (is_strtod_only(begin, end)) {
+        return std::nullopt;
+    }
+
     constexpr static auto buff_max = 64;
     std::array<char, buff_max> short_buff;
 
-- 
2.43.0


From f023ee4e701cfdcdcdbef53afc427cc276de2209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:57 +0000
Subject: [PATCH 17/33] fix: return default constructed values if a conversion
 fails

The columns converted before the invalid one, and values which did not
meet their restriction, were returned.
---
 include/ss/converter.hpp | 4 ++++
 ssp.hpp                  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/ss/converter.hpp b/include/ss/converter.hpp
index 92c45e7..e7a8649 100644
--- a/include/ss/converter.hpp
+++ b/include/ss/converter.hpp
@@ -467,6 +467,10 @@ private:
                       "at least one parameter must be non void");
         no_void_validator_tup_t<Ts...> ret{};
         extract_multiple<0, 0, Ts...>(ret, elems);
+
+        if (!valid()) {
+            return {};
+        }
         return ret;
     }
 
diff --git a/ssp.hpp b/ssp.hpp
index 68b9b96..135326f 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -2300,6 +2300,10 @@ private:
                       "at least one parameter must be non void");
         no_void_validator_tup_t<Ts...> ret{};
         extract_multiple<0, 0, Ts...>(ret, elems);
+
+        if (!valid()) {
+            return {};
+        }
         return ret;
     }
 
-- 
2.43.0


From 3ddc0ace456d9132e6bc272ab03f03a1623cf881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:57 +0000
Subject: [PATCH 18/33] fix: convert int8_t and uint8_t as single characters

They were converted as numbers, ss::int8 and ss::uint8 exist for that.
---
 include/ss/extract.hpp | 14 ++++++++++++++
 ssp.hpp                | 14 ++++++++++++++
 2 files changed, 28 insertions(+)

diff --git a/include/ss/extract.hpp b/include/ss/extract.hpp
index 2d1a038..f3cdddd 100644
--- a/include/ss/extract.hpp
+++ b/include/ss/extract.hpp
@@ -274,6 +274,20 @@ template <>
     return (end == begin + 1);
 }
 
+template <>
+[[nodiscard]] inline bool extract(const char* begin, const char* end,
+                                  signed char& value) {
+    value = static_cast<signed char>(*begin);
+    return (end == begin + 1);
+}
+
+template <>
+[[nodiscard]] inline bool extract(const char* begin, const char* end,
+                                  unsigned char& value) {
+    value = static_cast<unsigned char>(*begin);
+    return (end == begin + 1);
+}
+
 template <>
 [[nodiscard]] inline bool extract(const char* begin, const char* end,
                                   std::string& value) {
diff --git a/ssp.hpp b/ssp.hpp
index 135326f..0db4763 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -1826,6 +1826,20 @@ template <>
     return (end == begin + 1);
 }
 
+template <>
+[[nodiscard]] inline bool extract(const char* begin, const char* end,
+                                  signed char& value) {
+    value = static_cast<signed char>(*begin);
+    return (end == begin + 1);
+}
+
+template <>
+[[nodiscard]] inline bool extract(const char* begin, const char* end,
+                                  unsigned char& value) {
+    value = static_cast<unsigned char>(*begin);
+    return (end == begin + 1);
+}
+
 template <>
 [[nodiscard]] inline bool extract(const char* begin, const char* end,
                                   std::string& value) {
-- 
2.43.0


From da4e05c45aef6331d3d4f308e713eefa03ee30e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:57 +0000
Subject: [PATCH 19/33] fix: consume the row if an exception is thrown while
 converting it

An exception thrown by a custom conversion or restriction left the parser on
a row it had already split, which was then returned again.
---
 include/ss/parser.hpp | 33 ++++++++++++++++++++-------------
 ssp.hpp               | 33 ++++++++++++++++++++-------------
 2 files changed, 40 insertions(+), 26 deletions(-)

diff --git a/include/ss/parser.hpp b/include/ss/parser.hpp
index 409d538..865b829 100644
--- a/include/ss/parser.hpp
+++ b/include/ss/parser.hpp
@@ -155,19 +155,7 @@ public:
 
         clear_error();
 
-        if constexpr (throw_on_error) {
-            try {
-                auto value = reader_.converter_.template convert<T, Ts...>();
-                read_line();
-                return value;
-            } catch (const ss::exception& e) {
-                const auto line_number = reader_.line_number_;
-                read_line();
-                decorate_rethrow(e, line_number);
-            }
-        }
-
-        auto value = reader_.converter_.template convert<T, Ts...>();
+        auto value = convert_row<T, Ts...>();
 
         if (!reader_.converter_.valid()) {
             handle_error_invalid_conversion();
@@ -488,6 +476,25 @@ public:
     }
 
 private:
+    // converts the current row, the row is considered to be read even if an
+    // exception is thrown
+    template <typename... Ts>
+    [[nodiscard]] no_void_validator_tup_t<Ts...> convert_row() {
+        try {
+            return reader_.converter_.template convert<Ts...>();
+        } catch (const ss::exception& e) {
+            const auto line_number = reader_.line_number_;
+            read_line();
+            if constexpr (throw_on_error) {
+                decorate_rethrow(e, line_number);
+            }
+            throw;
+        } catch (...) {
+            read_line();
+            throw;
+        }
+    }
+
     // tries to invoke the given function (see below), if the function
     // returns a value which can be used as a conditional, and it returns
     // false, the function sets an error, and allows the invoke of the
diff --git a/ssp.hpp b/ssp.hpp
index 0db4763..61ce35f 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -2482,19 +2482,7 @@ public:
 
         clear_error();
 
-        if constexpr (throw_on_error) {
-            try {
-                auto value = reader_.converter_.template convert<T, Ts...>();
-                read_line();
-                return value;
-            } catch (const ss::exception& e) {
-                const auto line_number = reader_.line_number_;
-                read_line();
-                decorate_rethrow(e, line_number);
-            }
-        }
-
-        auto value = reader_.converter_.template convert<T, Ts...>();
+        auto value = convert_row<T, Ts...>();
 
         if (!reader_.converter_.valid()) {
             handle_error_invalid_conversion();
@@ -2815,6 +2803,25 @@ public:
     }
 
 private:
+    // converts the current row, the row is considered to be read even if an
+    // exception is thrown
+    template <typename... Ts>
+    [[nodiscard]] no_void_validator_tup_t<Ts...> convert_row() {
+        try {
+            return reader_.converter_.template convert<Ts...>();
+        } catch (const ss::exception& e) {
+            const auto line_number = reader_.line_number_;
+            read_line();
+            if constexpr (throw_on_error) {
+                decorate_rethrow(e, line_number);
+            }
+            throw;
+        } catch (...) {
+            read_line();
+            throw;
+        }
+    }
+
     // tries to invoke the given function (see below), if the function
     // returns a value which can be used as a conditional, and it returns
     // false, the function sets an error, and allows the invoke of the
-- 
2.43.0


From 345d5739d4e30e442f5f0fe1c334473184ed2cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:36 +0000
Subject: [PATCH 20/33] fix: treat an empty line as a single empty column if
 only one is expected

Reading an empty line should result in an error unless only one column is
present, it was an error for single columns too.
---
 include/ss/converter.hpp | 11 +++++++++++
 ssp.hpp                  | 11 +++++++++++
 2 files changed, 22 insertions(+)

diff --git a/include/ss/converter.hpp b/include/ss/converter.hpp
index e7a8649..73afdf6 100644
--- a/include/ss/converter.hpp
+++ b/include/ss/converter.hpp
@@ -341,6 +341,12 @@ private:
             return {};
         }
 
+        if (elems.empty() && expected_columns<Ts...>() == 1) {
+            // an empty line is a row with a single empty column
+            const char* const empty = "";
+            return convert_impl<Ts...>(split_data{{empty, empty}});
+        }
+
         // with multiline enabled the splitter does not treat an unterminated
         // quote as an error since the line could be continued (resplit)
         if (unterminated_quote()) {
@@ -391,6 +397,11 @@ private:
         return column_mappings_[tuple_position];
     }
 
+    template <typename... Ts>
+    [[nodiscard]] size_t expected_columns() const {
+        return columns_mapped() ? number_of_columns_ : sizeof...(Ts);
+    }
+
     // assumes positions are valid and the vector is not empty
     void set_column_mapping(std::vector<size_t> positions,
                             size_t number_of_columns) {
diff --git a/ssp.hpp b/ssp.hpp
index 61ce35f..7c6d978 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -2188,6 +2188,12 @@ private:
             return {};
         }
 
+        if (elems.empty() && expected_columns<Ts...>() == 1) {
+            // an empty line is a row with a single empty column
+            const char* const empty = "";
+            return convert_impl<Ts...>(split_data{{empty, empty}});
+        }
+
         // with multiline enabled the splitter does not treat an unterminated
         // quote as an error since the line could be continued (resplit)
         if (unterminated_quote()) {
@@ -2238,6 +2244,11 @@ private:
         return column_mappings_[tuple_position];
     }
 
+    template <typename... Ts>
+    [[nodiscard]] size_t expected_columns() const {
+        return columns_mapped() ? number_of_columns_ : sizeof...(Ts);
+    }
+
     // assumes positions are valid and the vector is not empty
     void set_column_mapping(std::vector<size_t> positions,
                             size_t number_of_columns) {
-- 
2.43.0


From 7bb9ce6483c8cd052e8f613d76c92c1ce1d018b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:36 +0000
Subject: [PATCH 21/33] fix: do not read in front of the buffer if a line
 begins with a null byte

Only the implementation used if getline is not available is affected.
---
 include/ss/common.hpp | 2 +-
 ssp.hpp               | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ss/common.hpp b/include/ss/common.hpp
index 3e55c57..3ef59d7 100644
--- a/include/ss/common.hpp
+++ b/include/ss/common.hpp
@@ -77,7 +77,7 @@ using ssize_t = intptr_t;
         line_used += buff_used;
         lineptr[line_used] = '\0';
 
-        if (lineptr[line_used - 1] == '\n') {
+        if (line_used > 0 && lineptr[line_used - 1] == '\n') {
             return line_used;
         }
     }
diff --git a/ssp.hpp b/ssp.hpp
index 7c6d978..5f36813 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -694,7 +694,7 @@ using ssize_t = intptr_t;
         line_used += buff_used;
         lineptr[line_used] = '\0';
 
-        if (lineptr[line_used - 1] == '\n') {
+        if (line_used > 0 && lineptr[line_used - 1] == '\n') {
             return line_used;
         }
     }
-- 
2.43.0


From 766649904a25cb6f574b665ccdefcf43d8481862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:31 +0000
Subject: [PATCH 22/33] fix: stop reading after running out of memory within
 the reader

The reader was left with a partially read or partially split line which was
returned as a new row by the next call.
---
 include/ss/parser.hpp | 19 ++++++++++++++++---
 ssp.hpp               | 19 ++++++++++++++++---
 2 files changed, 32 insertions(+), 6 deletions(-)

diff --git a/include/ss/parser.hpp b/include/ss/parser.hpp
index 865b829..3b908e2 100644
--- a/include/ss/parser.hpp
+++ b/include/ss/parser.hpp
@@ -100,7 +100,7 @@ public:
             if constexpr (multiline::enabled) {
                 // the ignored row may span over multiple lines
                 try {
-                    reader_.parse();
+                    parse_row();
                 } catch (const ss::exception&) {
                     // its content is not of interest
                 }
@@ -136,14 +136,14 @@ public:
 
         if constexpr (throw_on_error) {
             try {
-                reader_.parse();
+                parse_row();
             } catch (const ss::exception& e) {
                 const auto line_number = reader_.line_number_;
                 read_line();
                 decorate_rethrow(e, line_number);
             }
         } else {
-            reader_.parse();
+            parse_row();
         }
 
         reader_.update();
@@ -785,9 +785,22 @@ private:
     ////////////////
 
     void read_line() {
+        // the reader cannot be used anymore if it throws
+        eof_ = true;
         eof_ = !reader_.read_next();
     }
 
+    void parse_row() {
+        try {
+            reader_.parse();
+        } catch (const ss::exception&) {
+            throw;
+        } catch (...) {
+            eof_ = true;
+            throw;
+        }
+    }
+
     void ignore_line() {
         if (!eof_) {
             read_line();
diff --git a/ssp.hpp b/ssp.hpp
index 5f36813..6c4323c 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -2438,7 +2438,7 @@ public:
             if constexpr (multiline::enabled) {
                 // the ignored row may span over multiple lines
                 try {
-                    reader_.parse();
+                    parse_row();
                 } catch (const ss::exception&) {
                     // its content is not of interest
                 }
@@ -2474,14 +2474,14 @@ public:
 
         if constexpr (throw_on_error) {
             try {
-                reader_.parse();
+                parse_row();
             } catch (const ss::exception& e) {
                 const auto line_number = reader_.line_number_;
                 read_line();
                 decorate_rethrow(e, line_number);
             }
         } else {
-            reader_.parse();
+            parse_row();
         }
 
         reader_.update();
@@ -3123,9 +3123,22 @@ private:
     ////////////////
 
     void read_line() {
+        // the reader cannot be used anymore if it throws
+        eof_ = true;
         eof_ = !reader_.read_next();
     }
 
+    void parse_row() {
+        try {
+            reader_.parse();
+        } catch (const ss::exception&) {
+            throw;
+        } catch (...) {
+            eof_ = true;
+            throw;
+        }
+    }
+
     void ignore_line() {
         if (!eof_) {
             read_line();
-- 
2.43.0


From 6c91737bf68e47ceb5d8afd94503d7cc6f7ee986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:31 +0000
Subject: [PATCH 23/33] fix: do not return truncated lines if reading the file
 fails

---
 include/ss/common.hpp | 11 +++++++++--
 ssp.hpp               | 11 +++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/include/ss/common.hpp b/include/ss/common.hpp
index 3ef59d7..b7a4e9b 100644
--- a/include/ss/common.hpp
+++ b/include/ss/common.hpp
@@ -133,10 +133,17 @@ using ssize_t = intptr_t;
     if (file) {
         errno = 0;
         ssize = get_line_file(buffer, buffer_size, file);
+        if (ssize == -1 && errno == ENOMEM) {
+            throw std::bad_alloc{};
+        }
+
+        // the line is not complete if the file could not be read
+        if (std::ferror(file)) {
+            ssize = -1;
+        }
+
         if (ssize != -1) {
             curr_char += ssize;
-        } else if (errno == ENOMEM) {
-            throw std::bad_alloc{};
         }
     } else {
         ssize = get_line_buffer(buffer, buffer_size, csv_data_buffer,
diff --git a/ssp.hpp b/ssp.hpp
index 6c4323c..b9c8531 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -750,10 +750,17 @@ using ssize_t = intptr_t;
     if (file) {
         errno = 0;
         ssize = get_line_file(buffer, buffer_size, file);
+        if (ssize == -1 && errno == ENOMEM) {
+            throw std::bad_alloc{};
+        }
+
+        // the line is not complete if the file could not be read
+        if (std::ferror(file)) {
+            ssize = -1;
+        }
+
         if (ssize != -1) {
             curr_char += ssize;
-        } else if (errno == ENOMEM) {
-            throw std::bad_alloc{};
         }
     } else {
         ssize = get_line_buffer(buffer, buffer_size, csv_data_buffer,
-- 
2.43.0


From 132ea7f3039b7cb7c03f911596fe1c4d6b0d4172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:24 +0000
Subject: [PATCH 24/33] fix: do not read past an empty range when extracting a
 character

---
 include/ss/extract.hpp | 18 +++++++++++++++---
 ssp.hpp                | 18 +++++++++++++++---
 2 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/include/ss/extract.hpp b/include/ss/extract.hpp
index f3cdddd..fd071be 100644
--- a/include/ss/extract.hpp
+++ b/include/ss/extract.hpp
@@ -270,22 +270,34 @@ template <>
 template <>
 [[nodiscard]] inline bool extract(const char* begin, const char* end,
                                   char& value) {
+    if (end != begin + 1) {
+        return false;
+    }
+
     value = *begin;
-    return (end == begin + 1);
+    return true;
 }
 
 template <>
 [[nodiscard]] inline bool extract(const char* begin, const char* end,
                                   signed char& value) {
+    if (end != begin + 1) {
+        return false;
+    }
+
     value = static_cast<signed char>(*begin);
-    return (end == begin + 1);
+    return true;
 }
 
 template <>
 [[nodiscard]] inline bool extract(const char* begin, const char* end,
                                   unsigned char& value) {
+    if (end != begin + 1) {
+        return false;
+    }
+
     value = static_cast<unsigned char>(*begin);
-    return (end == begin + 1);
+    return true;
 }
 
 template <>
diff --git a/ssp.hpp b/ssp.hpp
index b9c8531..1bac5d4 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -1829,22 +1829,34 @@ template <>
 template <>
 [[nodiscard]] inline bool extract(const char* begin, const char* end,
                                   char& value) {
+    if (end != begin + 1) {
+        return false;
+    }
+
     value = *begin;
-    return (end == begin + 1);
+    return true;
 }
 
 template <>
 [[nodiscard]] inline bool extract(const char* begin, const char* end,
                                   signed char& value) {
+    if (end != begin + 1) {
+        return false;
+    }
+
     value = static_cast<signed char>(*begin);
-    return (end == begin + 1);
+    return true;
 }
 
 template <>
 [[nodiscard]] inline bool extract(const char* begin, const char* end,
                                   unsigned char& value) {
+    if (end != begin + 1) {
+        return false;
+    }
+
     value = static_cast<unsigned char>(*begin);
-    return (end == begin + 1);
+    return true;
 }
 
 template <>
-- 
2.43.0


From 3f522906b2164712faf98b327697407e31580354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:26 +0000
Subject: [PATCH 25/33] fix: never match delimiters containing a null byte

---
 include/ss/splitter.hpp | 4 +++-
 ssp.hpp                 | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/ss/splitter.hpp b/include/ss/splitter.hpp
index 18a7cbe..e3eb333 100644
--- a/include/ss/splitter.hpp
+++ b/include/ss/splitter.hpp
@@ -218,7 +218,9 @@ private:
     };
 
     [[nodiscard]] bool match(const char* const curr, const std::string& delim) {
-        return std::strncmp(curr, delim.c_str(), delim.size()) == 0;
+        // a line is null terminated, it cannot contain such a delimiter
+        return std::strncmp(curr, delim.c_str(), delim.size()) == 0 &&
+               delim.find('\0') == std::string::npos;
     };
 
     [[nodiscard]] size_t delimiter_size(char) {
diff --git a/ssp.hpp b/ssp.hpp
index 1bac5d4..9b9f548 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -1291,7 +1291,9 @@ private:
     };
 
     [[nodiscard]] bool match(const char* const curr, const std::string& delim) {
-        return std::strncmp(curr, delim.c_str(), delim.size()) == 0;
+        // a line is null terminated, it cannot contain such a delimiter
+        return std::strncmp(curr, delim.c_str(), delim.size()) == 0 &&
+               delim.find('\0') == std::string::npos;
     };
 
     [[nodiscard]] size_t delimiter_size(char) {
-- 
2.43.0


From 68b354bfa6fa935f232409bd84c5759d81b3078c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:14 +0000
Subject: [PATCH 26/33] fix: an error of a split does not concern columns of
 another line

---
 include/ss/converter.hpp | 9 +++++++--
 ssp.hpp                  | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/ss/converter.hpp b/include/ss/converter.hpp
index 73afdf6..aac07d6 100644
--- a/include/ss/converter.hpp
+++ b/include/ss/converter.hpp
@@ -336,7 +336,12 @@ private:
         const split_data& elems) {
         clear_error();
 
-        if (!splitter_.valid()) {
+        // an error of the last split does not concern other split data
+        const auto is_last_split = [&] {
+            return elems == splitter_.get_split_data();
+        };
+
+        if (!splitter_.valid() && is_last_split()) {
             handle_error_bad_split();
             return {};
         }
@@ -349,7 +354,7 @@ private:
 
         // with multiline enabled the splitter does not treat an unterminated
         // quote as an error since the line could be continued (resplit)
-        if (unterminated_quote()) {
+        if (unterminated_quote() && is_last_split()) {
             handle_error_unterminated_quote();
             return {};
         }
diff --git a/ssp.hpp b/ssp.hpp
index 9b9f548..5aa2976 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -2204,7 +2204,12 @@ private:
         const split_data& elems) {
         clear_error();
 
-        if (!splitter_.valid()) {
+        // an error of the last split does not concern other split data
+        const auto is_last_split = [&] {
+            return elems == splitter_.get_split_data();
+        };
+
+        if (!splitter_.valid() && is_last_split()) {
             handle_error_bad_split();
             return {};
         }
@@ -2217,7 +2222,7 @@ private:
 
         // with multiline enabled the splitter does not treat an unterminated
         // quote as an error since the line could be continued (resplit)
-        if (unterminated_quote()) {
+        if (unterminated_quote() && is_last_split()) {
             handle_error_unterminated_quote();
             return {};
         }
-- 
2.43.0


From ac62983729361f691a250069385ea445d7493877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:39 +0000
Subject: [PATCH 27/33] fix: read the next row even if setting the error of the
 current one fails

---
 include/ss/parser.hpp | 25 +++++++++++++++++--------
 ssp.hpp               | 25 +++++++++++++++++--------
 2 files changed, 34 insertions(+), 16 deletions(-)

diff --git a/include/ss/parser.hpp b/include/ss/parser.hpp
index 3b908e2..d4f7cc7 100644
--- a/include/ss/parser.hpp
+++ b/include/ss/parser.hpp
@@ -148,20 +148,14 @@ public:
 
         reader_.update();
         if (!reader_.converter_.valid()) {
-            handle_error_invalid_conversion();
-            read_line();
+            finish_row();
             return {};
         }
 
         clear_error();
 
         auto value = convert_row<T, Ts...>();
-
-        if (!reader_.converter_.valid()) {
-            handle_error_invalid_conversion();
-        }
-
-        read_line();
+        finish_row();
         return value;
     }
 
@@ -495,6 +489,21 @@ private:
         }
     }
 
+    // sets the error of the current row and reads the next one, even if setting
+    // the error fails
+    void finish_row() {
+        try {
+            if (!reader_.converter_.valid()) {
+                handle_error_invalid_conversion();
+            }
+        } catch (...) {
+            read_line();
+            throw;
+        }
+
+        read_line();
+    }
+
     // tries to invoke the given function (see below), if the function
     // returns a value which can be used as a conditional, and it returns
     // false, the function sets an error, and allows the invoke of the
diff --git a/ssp.hpp b/ssp.hpp
index 5aa2976..26ba226 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -2512,20 +2512,14 @@ public:
 
         reader_.update();
         if (!reader_.converter_.valid()) {
-            handle_error_invalid_conversion();
-            read_line();
+            finish_row();
             return {};
         }
 
         clear_error();
 
         auto value = convert_row<T, Ts...>();
-
-        if (!reader_.converter_.valid()) {
-            handle_error_invalid_conversion();
-        }
-
-        read_line();
+        finish_row();
         return value;
     }
 
@@ -2859,6 +2853,21 @@ private:
         }
     }
 
+    // sets the error of the current row and reads the next one, even if setting
+    // the error fails
+    void finish_row() {
+        try {
+            if (!reader_.converter_.valid()) {
+                handle_error_invalid_conversion();
+            }
+        } catch (...) {
+            read_line();
+            throw;
+        }
+
+        read_line();
+    }
+
     // tries to invoke the given function (see below), if the function
     // returns a value which can be used as a conditional, and it returns
     // false, the function sets an error, and allows the invoke of the
-- 
2.43.0


From f8617b2029967c0c2cf7b9c63b994d970c9777f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:23 +0000
Subject: [PATCH 28/33] fix: ignore_header and ignore_empty given twice were
 silently disabled

---
 include/ss/setup.hpp | 6 ++++++
 ssp.hpp              | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/include/ss/setup.hpp b/include/ss/setup.hpp
index 8a30108..c8fc704 100644
--- a/include/ss/setup.hpp
+++ b/include/ss/setup.hpp
@@ -293,6 +293,12 @@ private:
     static_assert(count_throw_on_error <= 1,
                   "throw_on_error defined multiple times");
 
+    static_assert(count_ignore_header <= 1,
+                  "ignore_header defined multiple times");
+
+    static_assert(count_ignore_empty <= 1,
+                  "ignore_empty defined multiple times");
+
     static_assert(count_throw_on_error + count_string_error <= 1,
                   "cannot define both throw_on_error and string_error");
 
diff --git a/ssp.hpp b/ssp.hpp
index 26ba226..9eb0bf2 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -1063,6 +1063,12 @@ private:
     static_assert(count_throw_on_error <= 1,
                   "throw_on_error defined multiple times");
 
+    static_assert(count_ignore_header <= 1,
+                  "ignore_header defined multiple times");
+
+    static_assert(count_ignore_empty <= 1,
+                  "ignore_empty defined multiple times");
+
     static_assert(count_throw_on_error + count_string_error <= 1,
                   "cannot define both throw_on_error and string_error");
 
-- 
2.43.0


From 9c81d6ab06209df8052830e6eddf768ea2da9c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:55 +0000
Subject: [PATCH 29/33] fix: do not keep an incomplete header if an allocation
 fails

---
 include/ss/parser.hpp | 10 ++++++----
 ssp.hpp               | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/ss/parser.hpp b/include/ss/parser.hpp
index d4f7cc7..67f4410 100644
--- a/include/ss/parser.hpp
+++ b/include/ss/parser.hpp
@@ -592,16 +592,18 @@ private:
             return;
         }
 
+        // an incomplete header must not be kept if an allocation fails
+        std::vector<std::string> fields;
         for (const auto& [begin, end] : splitter.get_split_data()) {
             std::string field{begin, end};
-            if (std::find(header_.begin(), header_.end(), field) !=
-                header_.end()) {
-                header_.clear();
+            if (std::find(fields.begin(), fields.end(), field) !=
+                fields.end()) {
                 handle_error_duplicate_header_field(field);
                 return;
             }
-            header_.push_back(std::move(field));
+            fields.push_back(std::move(field));
         }
+        header_ = std::move(fields);
     }
 
     [[nodiscard]] std::optional<size_t> header_index(const std::string& field) {
diff --git a/ssp.hpp b/ssp.hpp
index 9eb0bf2..41b60fd 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -2962,16 +2962,18 @@ private:
             return;
         }
 
+        // an incomplete header must not be kept if an allocation fails
+        std::vector<std::string> fields;
         for (const auto& [begin, end] : splitter.get_split_data()) {
             std::string field{begin, end};
-            if (std::find(header_.begin(), header_.end(), field) !=
-                header_.end()) {
-                header_.clear();
+            if (std::find(fields.begin(), fields.end(), field) !=
+                fields.end()) {
                 handle_error_duplicate_header_field(field);
                 return;
             }
-            header_.push_back(std::move(field));
+            fields.push_back(std::move(field));
         }
+        header_ = std::move(fields);
     }
 
     [[nodiscard]] std::optional<size_t> header_index(const std::string& field) {
-- 
2.43.0


From 118cb2718c1fc531e3d3c09f00b0fcc656ceb00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:55 +0000
Subject: [PATCH 30/33] fix: select fields for all of the following rows or
 none if an allocation fails

---
 include/ss/parser.hpp | 5 +++--
 ssp.hpp               | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/ss/parser.hpp b/include/ss/parser.hpp
index 67f4410..992ba19 100644
--- a/include/ss/parser.hpp
+++ b/include/ss/parser.hpp
@@ -236,9 +236,10 @@ public:
             column_mappings.push_back(*index);
         }
 
+        // only the first one can fail (to copy the mappings)
         reader_.converter_.set_column_mapping(column_mappings, header_.size());
-        reader_.next_line_converter_.set_column_mapping(column_mappings,
-                                                        header_.size());
+        reader_.next_line_converter_.set_column_mapping(
+            std::move(column_mappings), header_.size());
 
         if (line() == header_line_) {
             ignore_line();
diff --git a/ssp.hpp b/ssp.hpp
index 41b60fd..ec4e028 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -2606,9 +2606,10 @@ public:
             column_mappings.push_back(*index);
         }
 
+        // only the first one can fail (to copy the mappings)
         reader_.converter_.set_column_mapping(column_mappings, header_.size());
-        reader_.next_line_converter_.set_column_mapping(column_mappings,
-                                                        header_.size());
+        reader_.next_line_converter_.set_column_mapping(
+            std::move(column_mappings), header_.size());
 
         if (line() == header_line_) {
             ignore_line();
-- 
2.43.0


From bfebfe24b5caa6a754d6df5787e6959a4fbc152b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:20 +0000
Subject: [PATCH 31/33] fix: name the line of the row in the error of an
 alternative conversion

---
 include/ss/parser.hpp | 4 +++-
 ssp.hpp               | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/ss/parser.hpp b/include/ss/parser.hpp
index 992ba19..1055457 100644
--- a/include/ss/parser.hpp
+++ b/include/ss/parser.hpp
@@ -146,6 +146,7 @@ public:
             parse_row();
         }
 
+        row_line_number_ = reader_.line_number_;
         reader_.update();
         if (!reader_.converter_.valid()) {
             finish_row();
@@ -686,7 +687,7 @@ private:
             error_.clear();
             error_.append(file_name_)
                 .append(" ")
-                .append(std::to_string(reader_.line_number_))
+                .append(std::to_string(row_line_number_))
                 .append(": ")
                 .append(reader_.converter_.error_msg());
         } else if constexpr (!throw_on_error) {
@@ -1126,6 +1127,7 @@ private:
     size_t header_line_{0};
     bool eof_{false};
     bool row_available_{false};
+    size_t row_line_number_{0};
 };
 
 } /* namespace ss */
diff --git a/ssp.hpp b/ssp.hpp
index ec4e028..6c0fb2e 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -2516,6 +2516,7 @@ public:
             parse_row();
         }
 
+        row_line_number_ = reader_.line_number_;
         reader_.update();
         if (!reader_.converter_.valid()) {
             finish_row();
@@ -3056,7 +3057,7 @@ private:
             error_.clear();
             error_.append(file_name_)
                 .append(" ")
-                .append(std::to_string(reader_.line_number_))
+                .append(std::to_string(row_line_number_))
                 .append(": ")
                 .append(reader_.converter_.error_msg());
         } else if constexpr (!throw_on_error) {
@@ -3496,6 +3497,7 @@ private:
     size_t header_line_{0};
     bool eof_{false};
     bool row_available_{false};
+    size_t row_line_number_{0};
 };
 
 } /* namespace ss */
-- 
2.43.0


From b7d445cbb4734987afeb02203dfac848c1c7f512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:25 +0000
Subject: [PATCH 32/33] fix: convert decimals the same way in every locale
 without fast_float

---
 include/ss/extract.hpp | 33 ++++++++++++++++++++++++++++++---
 ssp.hpp                | 32 +++++++++++++++++++++++++++++---
 2 files changed, 59 insertions(+), 6 deletions(-)

diff --git a/include/ss/extract.hpp b/include/ss/extract.hpp
index fd071be..bf5cb75 100644
--- a/include/ss/extract.hpp
+++ b/include/ss/extract.hpp
@@ -14,6 +14,7 @@
 #else
 #include <algorithm>
 #include <array>
+#include <cstdio>
 #include <cstdlib>
 #endif
 
@@ -58,17 +59,35 @@ to_num(const char* const begin, const char* const end) {
         return true;
     }
 
+    // the decimal point of the current locale can be any other character
+    const bool is_literal = std::all_of(begin, end, [](char c) {
+        return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') ||
+               (c >= 'A' && c <= 'Z') || c == '.' || c == '+' || c == '-' ||
+               c == '(' || c == ')' || c == '_';
+    });
+    if (!is_literal) {
+        return true;
+    }
+
     return end - begin > 1 && *begin == '0' &&
            (begin[1] == 'x' || begin[1] == 'X');
 }
 
+// decimal point of the current locale, which strtof and strtod expect
+[[nodiscard]] inline std::string locale_decimal_point() {
+    std::array<char, 16> buff;
+    const int size = std::snprintf(buff.data(), buff.size(), "%.1f", 0.0);
+    return std::string{buff.data() + 1, static_cast<size_t>(size - 2)};
+}
+
 template <typename T>
 [[nodiscard]] std::enable_if_t<std::is_floating_point_v<T>, std::optional<T>>
-to_num(const char* const begin, const char* const end) {
+to_num(const char* const begin, const char* const end,
+       bool localized = false) {
     static_assert(!std::is_same_v<T, long double>,
                   "Conversion to long double is disabled");
 
-    if (is_strtod_only(begin, end)) {
+    if (!localized && is_strtod_only(begin, end)) {
         return std::nullopt;
     }
 
@@ -98,7 +117,15 @@ to_num(const char* const begin, const char* const end) {
     }
 
     if (parse_end != buff + string_range) {
-        return std::nullopt;
+        std::string text{begin, end};
+        const auto point = text.find('.');
+        if (localized || point == std::string::npos) {
+            return std::nullopt;
+        }
+
+        // the decimal point of the current locale could be a different one
+        text.replace(point, 1, locale_decimal_point());
+        return to_num<T>(text.data(), text.data() + text.size(), true);
     }
 
     return ret;
diff --git a/ssp.hpp b/ssp.hpp
index 6c0fb2e..680f80c 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -1625,17 +1625,35 @@ to_num(const char* const begin, const char* const end) {
         return true;
     }
 
+    // the decimal point of the current locale can be any other character
+    const bool is_literal = std::all_of(begin, end, [](char c) {
+        return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') ||
+               (c >= 'A' && c <= 'Z') || c == '.' || c == '+' || c == '-' ||
+               c == '(' || c == ')' || c == '_';
+    });
+    if (!is_literal) {
+        return true;
+    }
+
     return end - begin > 1 && *begin == '0' &&
            (begin[1] == 'x' || begin[1] == 'X');
 }
 
+// decimal point of the current locale, which strtof and strtod expect
+[[nodiscard]] inline std::string locale_decimal_point() {
+    std::array<char, 16> buff;
+    const int size = std::snprintf(buff.data(), buff.size(), "%.1f", 0.0);
+    return std::string{buff.data() + 1, static_cast<size_t>(size - 2)};
+}
+
 template <typename T>
 [[nodiscard]] std::enable_if_t<std::is_floating_point_v<T>, std::optional<T>>
-to_num(const char* const begin, const char* const end) {
+to_num(const char* const begin, const char* const end,
+       bool localized = false) {
     static_assert(!std::is_same_v<T, long double>,
                   "Conversion to long double is disabled");
 
-    if (is_strtod_only(begin, end)) {
+    if (!localized && is_strtod_only(begin, end)) {
         return std::nullopt;
     }
 
@@ -1665,7 +1683,15 @@ to_num(const char* const begin, const char* const end) {
     }
 
     if (parse_end != buff + string_range) {
-        return std::nullopt;
+        std::string text{begin, end};
+        const auto point = text.find('.');
+        if (localized || point == std::string::npos) {
+            return std::nullopt;
+        }
+
+        // the decimal point of the current locale could be a different one
+        text.replace(point, 1, locale_decimal_point());
+        return to_num<T>(text.data(), text.data() + text.size(), true);
     }
 
     return ret;
-- 
2.43.0


From 25652818ab2b73773eea443fc30123d0ae93284d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:37 +0000
Subject: [PATCH 33/33] fix: read null characters of files without getline

---
 include/ss/common.hpp | 10 ++++++++--
 ssp.hpp               | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/ss/common.hpp b/include/ss/common.hpp
index b7a4e9b..d5c8060 100644
--- a/include/ss/common.hpp
+++ b/include/ss/common.hpp
@@ -62,10 +62,15 @@ using ssize_t = intptr_t;
 
     lineptr[0] = '\0';
 
+    // null characters can be read, only the last one terminates what is read
+    buff.fill('\n');
+
     size_t line_used = 0;
     while (std::fgets(buff.data(), sizeof(buff), file) != nullptr) {
-        line_used = std::strlen(lineptr);
-        size_t buff_used = std::strlen(buff.data());
+        size_t buff_used = buff.size() - 1;
+        while (buff[buff_used] != '\0') {
+            --buff_used;
+        }
 
         if (n <= buff_used + line_used) {
             const size_t new_n = n * 2;
@@ -80,6 +85,7 @@ using ssize_t = intptr_t;
         if (line_used > 0 && lineptr[line_used - 1] == '\n') {
             return line_used;
         }
+        buff.fill('\n');
     }
 
     return (line_used != 0) ? line_used : -1;
diff --git a/ssp.hpp b/ssp.hpp
index 680f80c..7c89c8e 100644
--- a/ssp.hpp
+++ b/ssp.hpp
@@ -679,10 +679,15 @@ using ssize_t = intptr_t;
 
     lineptr[0] = '\0';
 
+    // null characters can be read, only the last one terminates what is read
+    buff.fill('\n');
+
     size_t line_used = 0;
     while (std::fgets(buff.data(), sizeof(buff), file) != nullptr) {
-        line_used = std::strlen(lineptr);
-        size_t buff_used = std::strlen(buff.data());
+        size_t buff_used = buff.size() - 1;
+        while (buff[buff_used] != '\0') {
+            --buff_used;
+        }
 
         if (n <= buff_used + line_used) {
             const size_t new_n = n * 2;
@@ -697,6 +702,7 @@ using ssize_t = intptr_t;
         if (line_used > 0 && lineptr[line_used - 1] == '\n') {
             return line_used;
         }
+        buff.fill('\n');
     }
 
     return (line_used != 0) ? line_used : -1;
-- 
2.43.0

