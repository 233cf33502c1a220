From d2481c301b4adeaf0b8523bc585b87c15e718468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:29:40 +0000
Subject: [PATCH 1/9] fix: C++98 strings of exactly
 BOOST_METAPARSE_LIMIT_STRING_SIZE characters have a size

---
 include/boost/metaparse/v1/cpp98/impl/size.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/boost/metaparse/v1/cpp98/impl/size.hpp b/include/boost/metaparse/v1/cpp98/impl/size.hpp
index 7de1241..1283a5b 100644
--- a/include/boost/metaparse/v1/cpp98/impl/size.hpp
+++ b/include/boost/metaparse/v1/cpp98/impl/size.hpp
@@ -54,6 +54,17 @@ namespace boost
         )
   
         #undef BOOST_METAPARSE_STRING_CASE
+
+        // string using all of the available characters
+        template <
+          BOOST_PP_ENUM_PARAMS(BOOST_METAPARSE_LIMIT_STRING_SIZE, int C)
+        >
+        struct
+          size<
+            string<BOOST_PP_ENUM_PARAMS(BOOST_METAPARSE_LIMIT_STRING_SIZE, C)>
+          > :
+          boost::mpl::int_<BOOST_METAPARSE_LIMIT_STRING_SIZE>
+        {};
       }
     }
   }
-- 
2.43.0


From 299d0cbeeb6d572e654da0cd79b35aef0f069d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:29:40 +0000
Subject: [PATCH 2/9] fix: C++98 sequence, nth_of, first_of and last_of accept
 BOOST_METAPARSE_LIMIT_SEQUENCE_SIZE parsers

---
 include/boost/metaparse/v1/cpp98/impl/nth_of_c.hpp |  3 ++-
 include/boost/metaparse/v1/cpp98/impl/sequence.hpp |  3 ++-
 include/boost/metaparse/v1/cpp98/last_of.hpp       | 11 +++++++++++
 include/boost/metaparse/v1/cpp98/nth_of_c.hpp      | 12 ++++++++++++
 include/boost/metaparse/v1/cpp98/sequence.hpp      | 10 ++++++++++
 5 files changed, 37 insertions(+), 2 deletions(-)

diff --git a/include/boost/metaparse/v1/cpp98/impl/nth_of_c.hpp b/include/boost/metaparse/v1/cpp98/impl/nth_of_c.hpp
index f71728c..fa65df9 100644
--- a/include/boost/metaparse/v1/cpp98/impl/nth_of_c.hpp
+++ b/include/boost/metaparse/v1/cpp98/impl/nth_of_c.hpp
@@ -13,6 +13,7 @@
 
 #include <boost/mpl/list.hpp>
 
+#include <boost/preprocessor/arithmetic/inc.hpp>
 #include <boost/preprocessor/repetition/repeat.hpp>
 #include <boost/preprocessor/punctuation/comma_if.hpp>
 #include <boost/preprocessor/repetition/enum_params.hpp>
@@ -46,7 +47,7 @@ namespace boost
           {};
         
         BOOST_PP_REPEAT(
-          BOOST_METAPARSE_LIMIT_SEQUENCE_SIZE,
+          BOOST_PP_INC(BOOST_METAPARSE_LIMIT_SEQUENCE_SIZE),
           BOOST_METAPARSE_NTH_OF_CASE,
           ~
         )
diff --git a/include/boost/metaparse/v1/cpp98/impl/sequence.hpp b/include/boost/metaparse/v1/cpp98/impl/sequence.hpp
index 7f28766..3d0955a 100644
--- a/include/boost/metaparse/v1/cpp98/impl/sequence.hpp
+++ b/include/boost/metaparse/v1/cpp98/impl/sequence.hpp
@@ -11,6 +11,7 @@
 
 #include <boost/mpl/vector.hpp>
 
+#include <boost/preprocessor/arithmetic/inc.hpp>
 #include <boost/preprocessor/repetition/repeat_from_to.hpp>
 #include <boost/preprocessor/repetition/enum_params.hpp>
 #include <boost/preprocessor/cat.hpp>
@@ -44,7 +45,7 @@ namespace boost
         
         BOOST_PP_REPEAT_FROM_TO(
           1,
-          BOOST_METAPARSE_LIMIT_SEQUENCE_SIZE,
+          BOOST_PP_INC(BOOST_METAPARSE_LIMIT_SEQUENCE_SIZE),
           BOOST_METAPARSE_SEQUENCE_CASE,
           ~
         )
diff --git a/include/boost/metaparse/v1/cpp98/last_of.hpp b/include/boost/metaparse/v1/cpp98/last_of.hpp
index 4e5e475..0d37184 100644
--- a/include/boost/metaparse/v1/cpp98/last_of.hpp
+++ b/include/boost/metaparse/v1/cpp98/last_of.hpp
@@ -58,6 +58,17 @@ namespace boost
       )
       
       #undef BOOST_METAPARSE_LAST_OF_N
+
+      // last_of with BOOST_METAPARSE_LIMIT_SEQUENCE_SIZE parsers
+      template <
+        BOOST_PP_ENUM_PARAMS(BOOST_METAPARSE_LIMIT_SEQUENCE_SIZE, class P)
+      >
+      struct last_of :
+        impl::BOOST_PP_CAT(nth_of_c, BOOST_METAPARSE_LIMIT_SEQUENCE_SIZE)<
+          BOOST_METAPARSE_LIMIT_SEQUENCE_SIZE - 1,
+          BOOST_PP_ENUM_PARAMS(BOOST_METAPARSE_LIMIT_SEQUENCE_SIZE, P)
+        >
+      {};
     }
   }
 }
diff --git a/include/boost/metaparse/v1/cpp98/nth_of_c.hpp b/include/boost/metaparse/v1/cpp98/nth_of_c.hpp
index ae86d31..fe99ac8 100644
--- a/include/boost/metaparse/v1/cpp98/nth_of_c.hpp
+++ b/include/boost/metaparse/v1/cpp98/nth_of_c.hpp
@@ -62,6 +62,18 @@ namespace boost
       )
       
       #undef BOOST_METAPARSE_NTH_OF_N
+
+      // nth_of_c with BOOST_METAPARSE_LIMIT_SEQUENCE_SIZE parsers
+      template <
+        int K,
+        BOOST_PP_ENUM_PARAMS(BOOST_METAPARSE_LIMIT_SEQUENCE_SIZE, class P)
+      >
+      struct nth_of_c :
+        impl::BOOST_PP_CAT(nth_of_c, BOOST_METAPARSE_LIMIT_SEQUENCE_SIZE)<
+          K,
+          BOOST_PP_ENUM_PARAMS(BOOST_METAPARSE_LIMIT_SEQUENCE_SIZE, P)
+        >
+      {};
     }
   }
 }
diff --git a/include/boost/metaparse/v1/cpp98/sequence.hpp b/include/boost/metaparse/v1/cpp98/sequence.hpp
index 6aae835..08c2cdf 100644
--- a/include/boost/metaparse/v1/cpp98/sequence.hpp
+++ b/include/boost/metaparse/v1/cpp98/sequence.hpp
@@ -56,6 +56,16 @@ namespace boost
       )
       
       #undef BOOST_METAPARSE_SEQUENCE_N
+
+      // sequence of BOOST_METAPARSE_LIMIT_SEQUENCE_SIZE parsers
+      template <
+        BOOST_PP_ENUM_PARAMS(BOOST_METAPARSE_LIMIT_SEQUENCE_SIZE, class P)
+      >
+      struct sequence :
+        impl::BOOST_PP_CAT(sequence, BOOST_METAPARSE_LIMIT_SEQUENCE_SIZE)<
+          BOOST_PP_ENUM_PARAMS(BOOST_METAPARSE_LIMIT_SEQUENCE_SIZE, P)
+        >
+      {};
     }
   }
 }
-- 
2.43.0


From 7668ce19cbe185bee4a1f4f4b39d97c09582ab2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:29:40 +0000
Subject: [PATCH 3/9] fix: C++98 one_char_except accepts
 BOOST_METAPARSE_LIMIT_ONE_CHAR_EXCEPT_SIZE characters

---
 .../boost/metaparse/v1/cpp98/impl/is_none.hpp |  3 ++-
 .../metaparse/v1/cpp98/one_char_except.hpp    | 17 ++++++++++++++
 .../metaparse/v1/cpp98/one_char_except_c.hpp  | 22 +++++++++++++++++++
 3 files changed, 41 insertions(+), 1 deletion(-)

diff --git a/include/boost/metaparse/v1/cpp98/impl/is_none.hpp b/include/boost/metaparse/v1/cpp98/impl/is_none.hpp
index 7586586..309e183 100644
--- a/include/boost/metaparse/v1/cpp98/impl/is_none.hpp
+++ b/include/boost/metaparse/v1/cpp98/impl/is_none.hpp
@@ -11,6 +11,7 @@
 #include <boost/mpl/eval_if.hpp>
 #include <boost/mpl/bool.hpp>
 
+#include <boost/preprocessor/arithmetic/inc.hpp>
 #include <boost/preprocessor/cat.hpp>
 #include <boost/preprocessor/arithmetic/dec.hpp>
 #include <boost/preprocessor/repetition/enum_params.hpp>
@@ -55,7 +56,7 @@ namespace boost
 
         BOOST_PP_REPEAT_FROM_TO(
           1,
-          BOOST_METAPARSE_LIMIT_ONE_CHAR_EXCEPT_SIZE,
+          BOOST_PP_INC(BOOST_METAPARSE_LIMIT_ONE_CHAR_EXCEPT_SIZE),
           BOOST_METAPARSE_DEFINE_IS_NONE,
           ~
         )
diff --git a/include/boost/metaparse/v1/cpp98/one_char_except.hpp b/include/boost/metaparse/v1/cpp98/one_char_except.hpp
index 330b593..56802b6 100644
--- a/include/boost/metaparse/v1/cpp98/one_char_except.hpp
+++ b/include/boost/metaparse/v1/cpp98/one_char_except.hpp
@@ -76,6 +76,23 @@ namespace boost
       )
 
       #undef MPLLBIS_METAPARSE_ONE_CHAR_EXCEPT_CASE
+
+      // BOOST_METAPARSE_LIMIT_ONE_CHAR_EXCEPT_SIZE characters
+      template <
+        BOOST_PP_ENUM_PARAMS(BOOST_METAPARSE_LIMIT_ONE_CHAR_EXCEPT_SIZE, class T)
+      >
+      struct one_char_except :
+        accept_when<
+          one_char,
+          impl::BOOST_PP_CAT(
+            is_none,
+            BOOST_METAPARSE_LIMIT_ONE_CHAR_EXCEPT_SIZE
+          )<
+            BOOST_PP_ENUM_PARAMS(BOOST_METAPARSE_LIMIT_ONE_CHAR_EXCEPT_SIZE, T)
+          >,
+          error::unexpected_character
+        >
+      {};
     }
   }
 }
diff --git a/include/boost/metaparse/v1/cpp98/one_char_except_c.hpp b/include/boost/metaparse/v1/cpp98/one_char_except_c.hpp
index 5556039..717d43c 100644
--- a/include/boost/metaparse/v1/cpp98/one_char_except_c.hpp
+++ b/include/boost/metaparse/v1/cpp98/one_char_except_c.hpp
@@ -87,6 +87,28 @@ namespace boost
       )
 
       #undef MPLLBIS_METAPARSE_ONE_CHAR_EXCEPT_CASE
+
+      // BOOST_METAPARSE_LIMIT_ONE_CHAR_EXCEPT_SIZE characters
+      template <
+        BOOST_PP_ENUM_PARAMS(BOOST_METAPARSE_LIMIT_ONE_CHAR_EXCEPT_SIZE, int C)
+      >
+      struct one_char_except_c :
+        accept_when<
+          one_char,
+          impl::BOOST_PP_CAT(
+            is_none,
+            BOOST_METAPARSE_LIMIT_ONE_CHAR_EXCEPT_SIZE
+          )<
+            BOOST_PP_ENUM(
+              BOOST_METAPARSE_LIMIT_ONE_CHAR_EXCEPT_SIZE,
+              BOOST_METAPARSE_WRAP,
+              ~
+            )
+          >,
+          error::unexpected_character
+        >
+      {};
+
       #undef BOOST_METAPARSE_WRAP
     }
   }
-- 
2.43.0


From d87a3dee9bc9322eed0bd50ba4dc7b1b4a9d5fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:29:40 +0000
Subject: [PATCH 4/9] fix: C++98 one_of_c accepts
 BOOST_METAPARSE_LIMIT_ONE_OF_SIZE characters

---
 include/boost/metaparse/v1/cpp98/one_of_c.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/boost/metaparse/v1/cpp98/one_of_c.hpp b/include/boost/metaparse/v1/cpp98/one_of_c.hpp
index 9a13a33..1b18999 100644
--- a/include/boost/metaparse/v1/cpp98/one_of_c.hpp
+++ b/include/boost/metaparse/v1/cpp98/one_of_c.hpp
@@ -71,6 +71,19 @@ namespace boost
       )
 
       #undef BOOST_METAPARSE_ONE_OF_C_CASE
+
+      // BOOST_METAPARSE_LIMIT_ONE_OF_SIZE characters
+      template <BOOST_PP_ENUM_PARAMS(BOOST_METAPARSE_LIMIT_ONE_OF_SIZE, long C)>
+      struct one_of_c :
+        one_of<
+          BOOST_PP_ENUM(
+            BOOST_METAPARSE_LIMIT_ONE_OF_SIZE,
+            BOOST_METAPARSE_ONE_OF_C_LIT,
+            ~
+          )
+        >
+      {};
+
       #undef BOOST_METAPARSE_ONE_OF_C_LIT
       #undef BOOST_NO_SCALAR_VALUE
     }
-- 
2.43.0


From 82038f2b1162399b96a974652fbeec04fb9faccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:33:57 +0000
Subject: [PATCH 5/9] fix: the character '\xff' can be used in C++98 strings

---
 include/boost/metaparse/v1/impl/no_char.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/boost/metaparse/v1/impl/no_char.hpp b/include/boost/metaparse/v1/impl/no_char.hpp
index c6b91f0..03c86d0 100644
--- a/include/boost/metaparse/v1/impl/no_char.hpp
+++ b/include/boost/metaparse/v1/impl/no_char.hpp
@@ -6,12 +6,13 @@
 //    (See accompanying file LICENSE_1_0.txt or copy at
 //          http://www.boost.org/LICENSE_1_0.txt)
 
-#include <cstdio>
+#include <climits>
 
 #ifdef BOOST_NO_CHAR
 #  error BOOST_NO_CHAR already defined
 #endif
-#define BOOST_NO_CHAR EOF
+// It can not be the value of any character
+#define BOOST_NO_CHAR INT_MAX
 
 #endif
 
-- 
2.43.0


From 55bbab090963fe9780a5ffdd5079b05b826b83ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:33:57 +0000
Subject: [PATCH 6/9] fix: string_headers.py covers max_length_limit when it is
 one above a multiple of the step

---
 tools/string_headers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/string_headers.py b/tools/string_headers.py
index 43ef052..ad3a289 100755
--- a/tools/string_headers.py
+++ b/tools/string_headers.py
@@ -131,7 +131,7 @@ def length_limits(max_length_limit, length_limit_step):
         str(i).zfill(string_len) for i in
         xrange(
             length_limit_step,
-            max_length_limit + length_limit_step - 1,
+            max_length_limit + length_limit_step,
             length_limit_step
         )
     ]
-- 
2.43.0


From c6080eea0d519c9bfbe9a2e0027fad16f473c149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:13 +0000
Subject: [PATCH 7/9] fix: provide the documented header
 error/expected_to_fail.hpp

The reference documents <boost/metaparse/error/expected_to_fail.hpp> and
error::expected_to_fail, but only the versioned header existed.
---
 include/boost/metaparse.hpp                   |  1 +
 .../metaparse/error/expected_to_fail.hpp      | 23 +++++++++++++++++++
 2 files changed, 24 insertions(+)
 create mode 100644 include/boost/metaparse/error/expected_to_fail.hpp

diff --git a/include/boost/metaparse.hpp b/include/boost/metaparse.hpp
index d6efecc..1d2ffdc 100644
--- a/include/boost/metaparse.hpp
+++ b/include/boost/metaparse.hpp
@@ -26,6 +26,7 @@
 #include <boost/metaparse/entire_input.hpp>
 #include <boost/metaparse/error/digit_expected.hpp>
 #include <boost/metaparse/error/end_of_input_expected.hpp>
+#include <boost/metaparse/error/expected_to_fail.hpp>
 #include <boost/metaparse/error/index_out_of_range.hpp>
 #include <boost/metaparse/error/letter_expected.hpp>
 #include <boost/metaparse/error/literal_expected.hpp>
diff --git a/include/boost/metaparse/error/expected_to_fail.hpp b/include/boost/metaparse/error/expected_to_fail.hpp
new file mode 100644
index 0000000..53ebb85
--- /dev/null
+++ b/include/boost/metaparse/error/expected_to_fail.hpp
@@ -0,0 +1,23 @@
+#ifndef BOOST_METAPARSE_ERROR_EXPECTED_TO_FAIL_HPP
+#define BOOST_METAPARSE_ERROR_EXPECTED_TO_FAIL_HPP
+
+// Copyright Abel Sinkovics (abel@sinkovics.hu)  2013.
+// Distributed under the Boost Software License, Version 1.0.
+//    (See accompanying file LICENSE_1_0.txt or copy at
+//          http://www.boost.org/LICENSE_1_0.txt)
+
+#include <boost/metaparse/v1/error/expected_to_fail.hpp>
+
+namespace boost
+{
+  namespace metaparse
+  {
+    namespace error
+    {
+      using v1::error::expected_to_fail;
+    }
+  }
+}
+
+#endif
+
-- 
2.43.0


From 52fa9251e1ef7bd4cd93afb40848e75d41bcbf04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:34 +0000
Subject: [PATCH 8/9] fix: generate_all.py links sections numbered 10 and above
 to the page of earlier definitions

The pattern for the section headings took numbers of one digit only, so the
notes of sections 10 to 12 of the tutorial were missing, and a section like
8.10 would have been linked to the page of section 8. The tutorial is
regenerated, as the CI job that compares it with the output expects.
---
 doc/getting_started.qbk | 8 ++++++++
 tools/generate_all.py   | 2 +-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/doc/getting_started.qbk b/doc/getting_started.qbk
index 7883ba6..3c0940b 100644
--- a/doc/getting_started.qbk
+++ b/doc/getting_started.qbk
@@ -1607,6 +1607,7 @@ It can deal with negative numbers correctly.
 [endsect]
 
 [section 10. Dealing with parens]
+[note Note that you can find everything that has been included and defined so far [link before_10 here].]
 
 Our parsers already support the precedence of the different operators. Let's add
 support for parens as well, so users can override the precedence rules when they
@@ -1751,6 +1752,7 @@ Our parser accepts and can deal with parens in the expressions.
 
 [#dealing_with_invalid_input]
 [section 11. Dealing with invalid input]
+[note Note that you can find everything that has been included and defined so far [link before_11 here].]
 
 So far we have been focusing on parsing valid user input. However, users of our
 parsers will make mistakes and we should help them finding the source of the
@@ -1792,6 +1794,7 @@ contains answers to the main questions one has when parsing fails:
   errors more descriptive.
 
 [section 11.1. Improving the error messages]
+[note Note that you can find everything that has been included and defined so far [link before_11_1 here].]
 
 So how can we improve the error messages? Let's look at what went wrong in the
 previous case:
@@ -1827,6 +1830,7 @@ We, the parser authors know: we expect a primary expression there. When
 [endsect]
 
 [section 11.2. Defining custom errors]
+[note Note that you can find everything that has been included and defined so far [link before_11_2 here].]
 
 To be able to return custom error messages (like `missing_primary_expression`)
 to the user, we need to define those error messages first. The error messages
@@ -1914,6 +1918,7 @@ missing closing parens, missing operators, etc) can be covered in a similar way.
 [endsect]
 
 [section 11.3. Missing closing parens]
+[note Note that you can find everything that has been included and defined so far [link before_11_3 here].]
 
 Missing closing parens are common errors. Let's see how our parsers report them:
 
@@ -1997,6 +2002,7 @@ This works as expected now: it tells us that there is a missing paren and it
 points us the open paren which is not closed.
 
 [section 11.3.1. Simplifying the parser]
+[note Note that you can find everything that has been included and defined so far [link before_11_3_1 here].]
 
 Our parser provides useful error messages for missing closing parens, however,
 the implementation of the parser (`plus_exp4`) is long and repetitive: it
@@ -2045,6 +2051,7 @@ Note that other folding parsers have their `f` versions as well (eg.
 
 [endsect]
 [section 11.3.2. Using `foldl_reject_incomplete_start_with_parser` at other places as well]
+[note Note that you can find everything that has been included and defined so far [link before_11_3_2 here].]
 
 We have replaced one [link foldl_start_with_parser `foldl_start_with_parser`]
 with
@@ -2107,6 +2114,7 @@ Let's try different invalid expressions:
 [endsect]
 
 [section 12. Summary]
+[note Note that you can find everything that has been included and defined so far [link before_12 here].]
 
 This tutorial showed you how to build a parser for a calculator language. Now
 that you understand how to do this, you should be able to use the same
diff --git a/tools/generate_all.py b/tools/generate_all.py
index 66a5267..a4a89b2 100755
--- a/tools/generate_all.py
+++ b/tools/generate_all.py
@@ -142,7 +142,7 @@ def what_we_have_so_far_docs(doc_dir, qbk, defs, sections):
       if sec == s and not d.startswith('//')
     ])
 
-  is_section = re.compile('^\[section (([0-9]\.)+)')
+  is_section = re.compile('^\[section (([0-9]+\.)+)')
   note_prefix = \
     '[note Note that you can find everything that has been included and' \
     ' defined so far [link before_'
-- 
2.43.0


From 6b4af8629a73572480c1650ab1beb18d33b6a78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:38 +0000
Subject: [PATCH 9/9] fix: build_environment.py leaves the dependency file
 alone when an update fails

The file was opened for writing before the commits to record were looked up,
so a failing git command left an empty dependency file behind.
---
 tools/build_environment.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/tools/build_environment.py b/tools/build_environment.py
index b104fb3..e7247a9 100755
--- a/tools/build_environment.py
+++ b/tools/build_environment.py
@@ -62,15 +62,17 @@ def build_environment(submodules_file, out_dir, git, repo, action, ref):
     )
     git_in_boost.run(['submodule', 'update'])
     if action == 'update':
+        # Don't touch the file until every commit is known
+        new_content = json.dumps(
+            dict([
+                (k, head_of_master(k, git_in_boost.in_subdir(k), ref))
+                for k, v in submodules.iteritems()
+            ]),
+            sort_keys=True,
+            indent=2
+        )
         with open(submodules_file, 'w') as f:
-            f.write(json.dumps(
-                dict([
-                    (k, head_of_master(k, git_in_boost.in_subdir(k), ref))
-                    for k, v in submodules.iteritems()
-                ]),
-                sort_keys=True,
-                indent=2
-            ))
+            f.write(new_content)
     elif action == 'checkout':
         for name, commit in submodules.iteritems():
             git_in_boost.in_subdir(name).run(['checkout', commit])
-- 
2.43.0

