From a732d1824a202b75f1e110b3f5d9a8e60be807ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:56 +0000
Subject: [PATCH 01/56] fix: don't misread declarations whose first parentheses
 or brackets end before the last token

---
 src/parse.cpp | 67 ++++++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 63 insertions(+), 4 deletions(-)

diff --git a/src/parse.cpp b/src/parse.cpp
index 98cdea4..f39c1ea 100644
--- a/src/parse.cpp
+++ b/src/parse.cpp
@@ -65,6 +65,61 @@ namespace /* anonymous */
     }
 
 
+    /* check if the parentheses opened at `it' are closed by the element at `last' */
+    bool closed_by(iter_t it, const iter_t &last)
+    {
+        int scope = 0;
+
+        for ( ; it < last; it++)
+        {
+            switch (utils::str_front(*it))
+            {
+            case '(':
+                scope++;
+                break;
+            case ')':
+                scope--;
+                break;
+            default:
+                break;
+            }
+
+            if (scope < 1) {
+                return false;
+            }
+        }
+
+        return (it == last && scope == 1);
+    }
+
+
+    /* check if the elements are nothing but array brackets and what's inside of them */
+    bool array_brackets(iter_t it, const iter_t &end)
+    {
+        int scope = 0;
+
+        for ( ; it != end; it++)
+        {
+            switch (utils::str_front(*it))
+            {
+            case '[':
+                scope++;
+                break;
+            case ']':
+                scope--;
+                break;
+            default:
+                if (scope < 1) {
+                    return false;
+                }
+                break;
+            }
+        }
+
+        return (scope == 0);
+    }
+
+
     /* copy function parameters but don't mess up function pointer types */
     void copy_parameters(const iter_t &it_beg, const iter_t &it_end, proto_t &proto)
     {
@@ -119,7 +174,7 @@ namespace /* anonymous */
     /* TYPE SYMBOL [ ] */
     bool check_array(vstring_t &v, proto_t &p, iter_t &it)
     {
-        if (!parse::is_array(v, it)) {
+        if (!parse::is_array(v, it) || !array_brackets(it, v.end())) {
             return false;
         }
 
@@ -135,7 +190,7 @@ namespace /* anonymous */
     /* TYPE ( * SYMBOL ) ( ) */
     bool check_function_pointer(vstring_t &v, proto_t &p, iter_t &it)
     {
-        if (!parse::is_function_pointer(v, it)) {
+        if (!parse::is_function_pointer(v, it) || !closed_by(it + 4, v.end() - 1)) {
             return false;
         }
 
@@ -156,7 +211,7 @@ namespace /* anonymous */
     /* TYPE ( SYMBOL ) ( )  <- this may be the result of a macro expansion */
     bool check_function_paren(vstring_t &v, proto_t &p, iter_t &it)
     {
-        if (!parse::is_function_parentheses(v, it)) {
+        if (!parse::is_function_parentheses(v, it) || !closed_by(it + 3, v.end() - 1)) {
             return false;
         }
 
@@ -185,6 +240,10 @@ namespace /* anonymous */
             return false;
         }
 
+        if (!closed_by(it + 2 + n, v.end() - 2)) {
+            return false;
+        }
+
         p.prototype = proto::function;
         parse::append_strings(p.type, v.begin(), it /* first lparen */);
         parse::append_strings(p.type, it + 1, it + 1 + n);
@@ -201,7 +260,7 @@ namespace /* anonymous */
     /* TYPE SYMBOL ( ) */
     bool check_function(vstring_t &v, proto_t &p, iter_t &it)
     {
-        if (!parse::is_function(v, it)) {
+        if (!parse::is_function(v, it) || !closed_by(it, v.end() - 1)) {
             return false;
         }
 
-- 
2.43.0


From f60a3437dc09dc5a5b153c65556d86a766da3b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:20 +0000
Subject: [PATCH 02/56] fix: line split must not swallow the lines following
 the next one

---
 src/lex.l    |   2 +-
 src/lex.yy.c | 224 +++++++++++++++++++++++++--------------------------
 2 files changed, 111 insertions(+), 115 deletions(-)

diff --git a/src/lex.l b/src/lex.l
index 351f667..6f08c22 100644
--- a/src/lex.l
+++ b/src/lex.l
@@ -43,7 +43,7 @@ void set_illegal_char();
 
 bom                 "\xEF\xBB\xBF"
 col                 [\x1B][\[][0-9;]*[m]
-split               "\\"[[:space:]]*?"\n"
+split               "\\"[ \t\r\v\f]*"\n"
 ast_begin           ^({bom})?({col})?"TranslationUnitDecl"({col})?({col})?" 0x".*
 funcvar             ^({col})?[|`]"-"({col})?({col})?("Function"|"Var")"Decl"({col})?({col})?" 0x".*
 parmvar             ^({col})?[| ]" "[|`]"-"({col})?({col})?"ParmVarDecl"({col})?({col})?" 0x".*
diff --git a/src/lex.yy.c b/src/lex.yy.c
index f09ddf6..e41a98d 100644
--- a/src/lex.yy.c
+++ b/src/lex.yy.c
@@ -456,36 +456,36 @@ static const YY_CHAR yy_meta[50] =
 
 static const flex_int16_t yy_base[273] =
     {   0,
-        0,   48,  479,   53,   57,   61,   58,   62,   64,   65,
-       68,   69,   67,   75,  481,  483,  483,  483,  483,  469,
-       76,    0,  483,  483,   54,  439,  435,  442,  483,  483,
-      429,   97,  102,  451,  483,  438,  435,  425,  483,  483,
-      447,  465,  459,   85,    0,  483,  483,  107,  483,  483,
-      111,  483,  483,   94,  483,  483,  106,  118,  483,  483,
-       99,  457,  483,  483,  123,    0,  426,  426,  427,  427,
-      431,  414,  127,  483,  121,  424,  433,  411,  124,   96,
-      123,    0,  142,  146,  151,  157,  483,  161,  483,  483,
-      165,  169,  173,  483,  177,  483,  181,  185,  424,  427,
-
-      415,  425,  418,  483,  178,  432,  412,  416,  196,  191,
-      184,  440,  425,  407,  420,  206,  211,  216,  225,  230,
-      236,  483,  483,    0,  408,  417,  415,  408,  404,  409,
-      401,  415,  402,  432,  426,  147,   71,  229,  400,  396,
-      483,  483,  483,  483,  398,  392,  401,    0,  403,  393,
-      395,  403,  399,  232,  146,  397,  406,    0,    0,  392,
-      387,  386,  393,  236,  381,  394,  377,  386,    0,  376,
-      250,  374,  243,  157,  379,  246,  380,  383,  377,  483,
-      377,  384,  384,  254,  162,  370,  372,  377,  367,  258,
-      375,  366,  191,  359,  360,  261,  371,  349,  362,  346,
-
-      326,  334,  337,  268,  312,  317,  317,  321,  271,  260,
-        0,  315,  317,  320,  323,    0,  324,  304,  310,  276,
-      299,  315,  274,  283,  326,  298,  279,  263,  249,  214,
-      212,  286,  194,  213,  193,  293,  289,    0,  194,  299,
-      198,    0,  192,  191,  194,  298,  140,  301,  101,  308,
-      135,  314,  311,  324,    0,   93,    0,  323,  326,   87,
-      483,  360,  364,  368,  372,  376,  380,   73,  384,  388,
-      392,  396
+        0,   48,  458,   53,   57,   61,   58,   62,   64,   65,
+       68,   69,   67,   75,  460,  462,  462,  462,  462,  448,
+       76,    0,  462,  462,   54,  418,  414,  421,  462,  462,
+      408,   97,  102,  430,  462,  417,  414,  404,  462,  462,
+      426,  444,  438,   85,    0,  462,  462,  107,  462,  462,
+      111,  462,  462,   94,  462,  462,  106,  118,  462,  462,
+       99,  436,  462,  462,  123,    0,  405,  405,  406,  406,
+      410,  393,  127,  462,  121,  403,  412,  390,  124,   96,
+      123,    0,  142,  462,  146,  462,  462,  151,  462,  462,
+      157,  161,  462,  462,  165,  462,  169,  131,  403,  406,
+
+      394,  404,  397,  462,  162,  411,  391,  395,  176,  171,
+      147,  419,  404,  386,  399,  185,  413,  196,  182,  201,
+      412,  462,  462,    0,  385,  394,  392,  385,  381,  386,
+      378,  392,  379,  409,  403,  190,   71,  194,  377,  373,
+      462,  462,  462,  462,  375,  369,  378,    0,  380,  370,
+      372,  380,  376,  197,  146,  374,  383,    0,    0,  369,
+      364,  363,  370,  200,  358,  371,  354,  363,    0,  353,
+      214,  351,  207,  198,  356,  210,  357,  360,  354,  462,
+      354,  361,  361,  222,  138,  347,  349,  354,  344,  225,
+      352,  343,  222,  337,  341,  232,  355,  335,  345,  352,
+
+      329,  338,  315,  235,  290,  295,  295,  299,  238,  225,
+        0,  293,  295,  298,  301,    0,  302,  283,  288,  247,
+      285,  300,  228,  250,  312,  284,  281,  286,  295,  267,
+      277,  260,  262,  278,  262,  263,  238,    0,  253,  250,
+      258,    0,  252,  255,  258,  272,  237,  275,  151,  278,
+      184,  253,  285,  263,    0,   93,    0,  288,  300,   87,
+      462,  334,  338,  342,  346,  350,  354,   73,  358,  362,
+      366,  370
     } ;
 
 static const flex_int16_t yy_def[273] =
@@ -522,7 +522,7 @@ static const flex_int16_t yy_def[273] =
       261,  261
     } ;
 
-static const flex_int16_t yy_nxt[533] =
+static const flex_int16_t yy_nxt[512] =
     {   0,
        16,   17,   18,   16,   17,   16,   16,   19,   19,   16,
        20,   21,   22,   22,   23,   24,   22,   22,   22,   22,
@@ -538,54 +538,52 @@ static const flex_int16_t yy_nxt[533] =
        65,   73,   74,   73,   73,   87,   73,   74,   83,   84,
        94,   83,   85,   86,   89,   85,  258,   90,   88,   92,
        93,  112,   92,   95,   97,   98,  113,   97,   73,   73,
-       91,   73,   74,  105,  105,  105,  110,  110,  110,  229,
-      112,  114,  255,   83,   84,  115,   83,   83,   84,  166,
-       83,   80,   85,   86,  106,   85,   81,  111,   85,   86,
-      182,   85,  116,  117,  114,  116,  118,  119,  115,  118,
-       92,   93,  252,   92,   92,   93,  153,   92,  120,  121,
-      114,  120,   97,   98,  115,   97,   97,   98,  134,   97,
-      105,  105,  105,  122,  199,  200,  123,   73,   73,  132,
-
-       73,   74,  133,  110,  110,  110,  249,  116,  117,  135,
-      116,  106,  116,  117,  248,  116,  129,  118,  119,  247,
-      118,  246,  141,  243,  111,  240,  118,  119,  136,  118,
-      239,  120,  121,  142,  120,  238,  143,  120,  121,  235,
-      120,  154,  154,  154,  154,  154,  154,  144,  173,  173,
-      173,  180,  180,  234,  180,  173,  173,  173,  184,  184,
-      184,  233,  155,  215,  200,  155,  184,  184,  184,  174,
-      196,  196,  196,  196,  196,  196,  174,  228,  229,  185,
-      209,  209,  209,  209,  209,  209,  232,  185,  224,  224,
-      224,  197,  241,  229,  197,  224,  224,  224,  236,  236,
-
-      236,  210,  244,  245,  210,  236,  236,  236,  231,  225,
-      250,  250,  250,  253,  253,  253,  225,  244,  245,  237,
-      250,  250,  250,  253,  253,  253,  237,  256,  245,  230,
-      200,  251,  227,  226,  254,  259,  259,  259,  259,  259,
-      259,  251,  223,  222,  254,  221,  220,  219,  218,  217,
-      214,  213,  212,  211,  208,  207,  260,  206,  205,  260,
-       39,   39,   39,   39,   45,   45,   45,   45,   49,   49,
-       49,   49,   52,   52,   52,   52,   55,   55,   55,   55,
-       59,   59,   59,   59,   82,  204,  203,   82,  216,  216,
-      153,  216,  242,  242,  202,  242,  257,  257,  201,  257,
-
-      157,  198,  195,  194,  193,  192,  191,  190,  189,  188,
-      187,  186,  183,  181,  179,  178,  177,  176,  175,  172,
-      171,  170,  169,  168,  167,  165,  164,  163,  162,  161,
-      160,  159,  158,  157,  156,   81,   80,   76,   75,  151,
-      150,  149,  148,  147,  146,  145,  140,  139,  138,  137,
-      131,  130,  129,  128,  127,  126,  125,  124,  109,  108,
-      107,  104,  103,  102,  101,  100,   99,   96,   81,   80,
-       79,   78,   77,   76,   75,   72,   71,   70,   69,   62,
-      261,   40,   15,  261,  261,  261,  261,  261,  261,  261,
+       91,   73,   74,  105,  105,  105,  110,  110,  110,  122,
+      112,  114,  123,   83,   84,  115,   83,   85,   86,  166,
+       85,  134,  116,  117,  106,  116,  114,  111,  118,  119,
+      115,  118,   92,   93,  114,   92,  120,  121,  115,  120,
+       97,   98,  135,   97,  105,  105,  105,   73,   73,  132,
+       73,   74,  133,  110,  110,  110,  116,  117,  229,  116,
+      142,  136,  255,  143,   80,  106,  129,  118,  119,   81,
+
+      118,  182,  120,  121,  111,  120,  154,  154,  154,  154,
+      154,  154,  173,  173,  173,  180,  180,  153,  180,  173,
+      173,  173,  184,  184,  184,  199,  200,  155,  215,  200,
+      155,  228,  229,  174,  184,  184,  184,  196,  196,  196,
+      174,  241,  229,  185,  196,  196,  196,  209,  209,  209,
+      209,  209,  209,  244,  245,  185,  244,  245,  197,  224,
+      224,  224,  224,  224,  224,  197,  256,  245,  210,  252,
+      249,  210,  236,  236,  236,  236,  236,  236,  248,  247,
+      225,  246,  243,  225,  250,  250,  250,  253,  253,  253,
+      250,  250,  250,  237,  240,  239,  237,  253,  253,  253,
+
+      259,  259,  259,  238,  235,  251,  234,  233,  254,  232,
+      231,  251,  259,  259,  259,  230,  200,  227,  254,  226,
+      223,  260,  222,  221,  220,  219,  218,  217,  214,  213,
+      212,  211,  208,  260,   39,   39,   39,   39,   45,   45,
+       45,   45,   49,   49,   49,   49,   52,   52,   52,   52,
+       55,   55,   55,   55,   59,   59,   59,   59,   82,  207,
+      206,   82,  216,  216,  205,  216,  242,  242,  204,  242,
+      257,  257,  203,  257,  153,  202,  201,  157,  198,  195,
+      194,  193,  192,  191,  190,  189,  188,  187,  186,  183,
+      181,  179,  178,  177,  176,  175,  172,  171,  170,  169,
+
+      168,  167,  165,  164,  163,  162,  161,  160,  159,  158,
+      157,  156,   81,   80,   76,   75,  151,  150,  149,  148,
+      147,  146,  145,  144,  141,  140,  139,  138,  137,  131,
+      130,  129,  128,  127,  126,  125,  124,  109,  108,  107,
+      104,  103,  102,  101,  100,   99,   96,   81,   80,   79,
+       78,   77,   76,   75,   72,   71,   70,   69,   62,  261,
+       40,   15,  261,  261,  261,  261,  261,  261,  261,  261,
       261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-
       261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
       261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
+
       261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-      261,  261
+      261
     } ;
 
-static const flex_int16_t yy_chk[533] =
+static const flex_int16_t yy_chk[512] =
     {   0,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
@@ -601,51 +599,49 @@ static const flex_int16_t yy_chk[533] =
        21,   32,   32,   33,   33,   54,   33,   33,   48,   48,
        61,   48,   51,   51,   57,   51,  256,   57,   54,   58,
        58,   80,   58,   61,   65,   65,   81,   65,   73,   73,
-       57,   73,   73,   75,   75,   75,   79,   79,   79,  251,
-       80,   81,  249,   83,   83,   81,   83,   84,   84,  155,
-       84,  136,   85,   85,   75,   85,  136,   79,   86,   86,
-      174,   86,   88,   88,  155,   88,   91,   91,  155,   91,
-       92,   92,  247,   92,   93,   93,  174,   93,   95,   95,
-      185,   95,   97,   97,  185,   97,   98,   98,  111,   98,
-      105,  105,  105,   98,  193,  193,   98,  109,  109,  109,
-
-      109,  109,  109,  110,  110,  110,  245,  116,  116,  111,
-      116,  105,  117,  117,  244,  117,  109,  118,  118,  243,
-      118,  241,  117,  239,  110,  235,  119,  119,  111,  119,
-      234,  120,  120,  119,  120,  233,  119,  121,  121,  231,
-      121,  138,  138,  138,  154,  154,  154,  121,  164,  164,
-      164,  171,  171,  230,  171,  173,  173,  173,  176,  176,
-      176,  229,  138,  210,  210,  154,  184,  184,  184,  164,
-      190,  190,  190,  196,  196,  196,  173,  223,  223,  176,
-      204,  204,  204,  209,  209,  209,  228,  184,  220,  220,
-      220,  190,  237,  237,  196,  224,  224,  224,  232,  232,
-
-      232,  204,  240,  240,  209,  236,  236,  236,  227,  220,
-      246,  246,  246,  248,  248,  248,  224,  252,  252,  232,
-      250,  250,  250,  253,  253,  253,  236,  254,  254,  226,
-      225,  246,  222,  221,  248,  258,  258,  258,  259,  259,
-      259,  250,  219,  218,  253,  217,  215,  214,  213,  212,
-      208,  207,  206,  205,  203,  202,  258,  201,  200,  259,
-      262,  262,  262,  262,  263,  263,  263,  263,  264,  264,
-      264,  264,  265,  265,  265,  265,  266,  266,  266,  266,
-      267,  267,  267,  267,  269,  199,  198,  269,  270,  270,
-      197,  270,  271,  271,  195,  271,  272,  272,  194,  272,
-
-      192,  191,  189,  188,  187,  186,  183,  182,  181,  179,
-      178,  177,  175,  172,  170,  168,  167,  166,  165,  163,
-      162,  161,  160,  157,  156,  153,  152,  151,  150,  149,
-      147,  146,  145,  140,  139,  135,  134,  133,  132,  131,
-      130,  129,  128,  127,  126,  125,  115,  114,  113,  112,
-      108,  107,  106,  103,  102,  101,  100,   99,   78,   77,
-       76,   72,   71,   70,   69,   68,   67,   62,   43,   42,
-       41,   38,   37,   36,   34,   31,   28,   27,   26,   20,
-       15,    3,  261,  261,  261,  261,  261,  261,  261,  261,
+       57,   73,   73,   75,   75,   75,   79,   79,   79,   98,
+       80,   81,   98,   83,   83,   81,   83,   85,   85,  155,
+       85,  111,   88,   88,   75,   88,  185,   79,   91,   91,
+      185,   91,   92,   92,  155,   92,   95,   95,  155,   95,
+       97,   97,  111,   97,  105,  105,  105,  109,  109,  109,
+      109,  109,  109,  110,  110,  110,  116,  116,  251,  116,
+      119,  111,  249,  119,  136,  105,  109,  118,  118,  136,
+
+      118,  174,  120,  120,  110,  120,  138,  138,  138,  154,
+      154,  154,  164,  164,  164,  171,  171,  174,  171,  173,
+      173,  173,  176,  176,  176,  193,  193,  138,  210,  210,
+      154,  223,  223,  164,  184,  184,  184,  190,  190,  190,
+      173,  237,  237,  176,  196,  196,  196,  204,  204,  204,
+      209,  209,  209,  240,  240,  184,  252,  252,  190,  220,
+      220,  220,  224,  224,  224,  196,  254,  254,  204,  247,
+      245,  209,  232,  232,  232,  236,  236,  236,  244,  243,
+      220,  241,  239,  224,  246,  246,  246,  248,  248,  248,
+      250,  250,  250,  232,  235,  234,  236,  253,  253,  253,
+
+      258,  258,  258,  233,  231,  246,  230,  229,  248,  228,
+      227,  250,  259,  259,  259,  226,  225,  222,  253,  221,
+      219,  258,  218,  217,  215,  214,  213,  212,  208,  207,
+      206,  205,  203,  259,  262,  262,  262,  262,  263,  263,
+      263,  263,  264,  264,  264,  264,  265,  265,  265,  265,
+      266,  266,  266,  266,  267,  267,  267,  267,  269,  202,
+      201,  269,  270,  270,  200,  270,  271,  271,  199,  271,
+      272,  272,  198,  272,  197,  195,  194,  192,  191,  189,
+      188,  187,  186,  183,  182,  181,  179,  178,  177,  175,
+      172,  170,  168,  167,  166,  165,  163,  162,  161,  160,
+
+      157,  156,  153,  152,  151,  150,  149,  147,  146,  145,
+      140,  139,  135,  134,  133,  132,  131,  130,  129,  128,
+      127,  126,  125,  121,  117,  115,  114,  113,  112,  108,
+      107,  106,  103,  102,  101,  100,   99,   78,   77,   76,
+       72,   71,   70,   69,   68,   67,   62,   43,   42,   41,
+       38,   37,   36,   34,   31,   28,   27,   26,   20,   15,
+        3,  261,  261,  261,  261,  261,  261,  261,  261,  261,
       261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-
       261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
       261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
+
       261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-      261,  261
+      261
     } ;
 
 /* Table of booleans, true if rule could match eol. */
-- 
2.43.0


From 5db4907936be43fc0bfca39f4a187d7dc96ad650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:20 +0000
Subject: [PATCH 03/56] fix: text after a multi-line comment in a preprocessor
 line is still part of that line

---
 src/lex.l    | 6 +++---
 src/lex.yy.c | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/lex.l b/src/lex.l
index 6f08c22..96693f9 100644
--- a/src/lex.l
+++ b/src/lex.l
@@ -94,7 +94,7 @@ other               [*,()\[\]]
 
 {preproc}                   { BEGIN(PRE); }
 <PRE>"/*"                   { BEGIN(PRE_COMMENT); /* C comment within PRE line */ }
-<PRE>"/"{split}"*"          { BEGIN(C_COMMENT); /* C comment, end of PRE line */ }
+<PRE>"/"{split}"*"          { BEGIN(PRE_COMMENT); /* C comment within PRE line */ }
 <PRE>"//"                   { BEGIN(COMMENT); /* simple comment */ }
 <PRE>"/"{split}"/"          { BEGIN(COMMENT); /* simple comment */ }
 <PRE>{split}                { /* line split */ }
@@ -102,8 +102,8 @@ other               [*,()\[\]]
 <PRE>.                      { }
 
 <PRE_COMMENT>"*/"           { BEGIN(PRE); /* continue PRE line */ }
-<PRE_COMMENT>"*"{split}"/"  { BEGIN(INITIAL); /* end */ }
-<PRE_COMMENT>\n             { BEGIN(C_COMMENT); /* C comment */ }
+<PRE_COMMENT>"*"{split}"/"  { BEGIN(PRE); /* continue PRE line */ }
+<PRE_COMMENT>\n             { }
 <PRE_COMMENT>.              { }
 
 {bom}                       { /* UTF-8 byte order mark */ }
diff --git a/src/lex.yy.c b/src/lex.yy.c
index e41a98d..760f3a6 100644
--- a/src/lex.yy.c
+++ b/src/lex.yy.c
@@ -1099,7 +1099,7 @@ YY_RULE_SETUP
 case 24:
 /* rule 24 can match eol */
 YY_RULE_SETUP
-{ BEGIN(C_COMMENT); /* C comment, end of PRE line */ }
+{ BEGIN(PRE_COMMENT); /* C comment within PRE line */ }
 	YY_BREAK
 case 25:
 YY_RULE_SETUP
@@ -1131,12 +1131,12 @@ YY_RULE_SETUP
 case 31:
 /* rule 31 can match eol */
 YY_RULE_SETUP
-{ BEGIN(INITIAL); /* end */ }
+{ BEGIN(PRE); /* continue PRE line */ }
 	YY_BREAK
 case 32:
 /* rule 32 can match eol */
 YY_RULE_SETUP
-{ BEGIN(C_COMMENT); /* C comment */ }
+{ }
 	YY_BREAK
 case 33:
 YY_RULE_SETUP
-- 
2.43.0


From 3de736031b19f382a807a8a9b7f421bec6a9557a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:59 +0000
Subject: [PATCH 04/56] fix: comment begin inside a string literal of a
 preprocessor line is not a comment

---
 src/lex.l    |   3 +
 src/lex.yy.c | 514 ++++++++++++++++++++++++++-------------------------
 2 files changed, 267 insertions(+), 250 deletions(-)

diff --git a/src/lex.l b/src/lex.l
index 96693f9..0d6a54a 100644
--- a/src/lex.l
+++ b/src/lex.l
@@ -53,6 +53,8 @@ optstr              [^[:space:]]+
 
 preproc             ^({bom})?[[:space:]]*?"#"
 
+literal             \"([^"\\\n]|\\[^\n]|{split})*\"|'([^'\\\n]|\\[^\n]|{split})*'
+
 identifier          [a-zA-Z0-9_]+
 other               [*,()\[\]]
 
@@ -97,6 +99,7 @@ other               [*,()\[\]]
 <PRE>"/"{split}"*"          { BEGIN(PRE_COMMENT); /* C comment within PRE line */ }
 <PRE>"//"                   { BEGIN(COMMENT); /* simple comment */ }
 <PRE>"/"{split}"/"          { BEGIN(COMMENT); /* simple comment */ }
+<PRE>{literal}              { /* string or character, cannot begin a comment */ }
 <PRE>{split}                { /* line split */ }
 <PRE>\n                     { BEGIN(INITIAL); /* end */ }
 <PRE>.                      { }
diff --git a/src/lex.yy.c b/src/lex.yy.c
index 760f3a6..332d45d 100644
--- a/src/lex.yy.c
+++ b/src/lex.yy.c
@@ -371,8 +371,8 @@ static void yynoreturn yy_fatal_error ( const char* msg  );
 	(yy_hold_char) = *yy_cp; \
 	*yy_cp = '\0'; \
 	(yy_c_buf_p) = yy_cp;
-#define YY_NUM_RULES 49
-#define YY_END_OF_BUFFER 50
+#define YY_NUM_RULES 50
+#define YY_END_OF_BUFFER 51
 /* This struct is not used in this scanner,
    but its presence is necessary. */
 struct yy_trans_info
@@ -380,37 +380,37 @@ struct yy_trans_info
 	flex_int32_t yy_verify;
 	flex_int32_t yy_nxt;
 	};
-static const flex_int16_t yy_accept[262] =
+static const flex_int16_t yy_accept[271] =
     {   0,
         0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
-        0,    0,    0,    0,   50,   48,   35,   35,   42,   48,
-       48,   41,   47,   46,   41,   41,   41,   41,   44,   45,
-       48,   35,   35,   48,   22,   48,   41,   48,    5,    4,
+        0,    0,    0,    0,   51,   49,   36,   36,   43,   49,
+       49,   42,   48,   47,   42,   42,   42,   42,   45,   46,
+       49,   36,   36,   49,   22,   49,   42,   49,    5,    4,
         5,    5,    5,    5,    8,   10,    9,    8,   15,   14,
-       15,   21,   20,   21,   29,   28,   29,   29,   33,   32,
-       33,    0,   16,   11,    0,   41,   41,   41,   41,   41,
-       41,    0,    0,   22,    0,    0,   41,    0,    0,    0,
-        0,    8,    0,    7,    0,   13,   18,    0,   23,   25,
-        0,    0,   27,   30,    0,   43,    0,    0,   41,   41,
-
-       41,   41,   41,   34,    0,    0,    0,   41,   34,    0,
+       15,   21,   20,   21,   30,   29,   30,   30,   30,   30,
+       34,   33,   34,    0,   16,   11,    0,   42,   42,   42,
+       42,   42,   42,    0,    0,   22,    0,    0,   42,    0,
+        0,    0,    0,    8,    0,    7,    0,   13,   18,    0,
+        0,   27,    0,    0,    0,   23,   25,    0,    0,   28,
+
+       31,    0,   44,    0,    0,   42,   42,   42,   42,   42,
+       35,    0,    0,    0,   42,   35,    0,    0,    0,    0,
         0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
-        0,   17,   12,   39,   41,   41,   41,   41,    0,    0,
-       41,    0,    0,    0,    0,    0,    0,    0,    0,    0,
-       19,   24,   26,   31,   41,   41,   41,   38,    0,    0,
-       41,    0,    0,    0,    0,    0,    0,   36,   37,   41,
-        0,    0,   41,    0,    0,    0,    0,    0,   40,    0,
-        0,   41,    0,    0,    0,    0,    0,    0,    0,    6,
-       41,    0,    0,    0,    0,    0,    0,    0,   41,    0,
-        0,    0,    0,    0,   41,    0,    0,    0,    0,    0,
-
-        0,   41,    0,    0,    0,    0,   41,    0,    0,    0,
-        2,    0,   41,    0,    0,    2,    0,   41,    0,    0,
-        0,   41,    0,    0,    0,    0,   41,    0,    0,    0,
-       41,    0,    0,    0,   41,    0,    0,    3,    0,   41,
-        0,    3,    0,    0,    0,    0,    0,    0,    0,    0,
-        0,    0,    0,    0,    1,    0,    1,    0,    0,    0,
-        0
+       17,   12,   40,   42,   42,   42,   42,    0,    0,   42,
+        0,    0,    0,    0,    0,    0,    0,    0,    0,   19,
+       24,   26,   32,   42,   42,   42,   39,    0,    0,   42,
+        0,    0,    0,    0,    0,    0,   37,   38,   42,    0,
+        0,   42,    0,    0,    0,    0,    0,   41,    0,    0,
+       42,    0,    0,    0,    0,    0,    0,    0,    6,   42,
+        0,    0,    0,    0,    0,    0,    0,   42,    0,    0,
+
+        0,    0,    0,   42,    0,    0,    0,    0,    0,    0,
+       42,    0,    0,    0,    0,   42,    0,    0,    0,    2,
+        0,   42,    0,    0,    2,    0,   42,    0,    0,    0,
+       42,    0,    0,    0,    0,   42,    0,    0,    0,   42,
+        0,    0,    0,   42,    0,    0,    3,    0,   42,    0,
+        3,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    1,    0,    1,    0,    0,    0,    0
     } ;
 
 static const YY_CHAR yy_ec[256] =
@@ -418,238 +418,247 @@ static const YY_CHAR yy_ec[256] =
         1,    1,    1,    1,    1,    1,    1,    1,    2,    3,
         2,    2,    2,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    4,    1,    1,    1,
-        1,    5,    1,    1,    6,    1,    7,    1,    1,    8,
-        8,    9,    1,    8,   10,   11,   12,   13,   14,   14,
-       14,   14,   14,   14,   14,   14,   14,    1,   15,    1,
-       16,    1,    1,    1,   17,   17,   17,   18,   17,   19,
-       17,   17,   17,   17,   17,   17,   17,   17,   17,   20,
-       17,   17,   17,   21,   22,   23,   17,   17,   17,   17,
-       24,   25,    8,    1,   17,   26,   27,   17,   28,   29,
-
-       30,   31,   17,   17,   32,   17,   17,   33,   34,   35,
-       36,   37,   17,   38,   39,   40,   41,   17,   17,   42,
-       43,   17,   44,   45,   46,    1,    1,    1,    1,    1,
+        1,    5,    1,    6,    7,    1,    8,    1,    9,   10,
+       10,   11,    1,   10,   12,   13,   14,   15,   16,   16,
+       16,   16,   16,   16,   16,   16,   16,    1,   17,    1,
+       18,    1,    1,    1,   19,   19,   19,   20,   19,   21,
+       19,   19,   19,   19,   19,   19,   19,   19,   19,   22,
+       19,   19,   19,   23,   24,   25,   19,   19,   19,   19,
+       26,   27,   10,    1,   19,   28,   29,   19,   30,   31,
+
+       32,   33,   19,   19,   34,   19,   19,   35,   36,   37,
+       38,   39,   19,   40,   41,   42,   43,   19,   19,   44,
+       45,   19,   46,   47,   48,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
-        1,    1,    1,    1,    1,    1,   47,    1,    1,    1,
-       48,    1,    1,    1,    1,    1,    1,    1,    1,    1,
+        1,    1,    1,    1,    1,    1,   49,    1,    1,    1,
+       50,    1,    1,    1,    1,    1,    1,    1,    1,    1,
 
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
-        1,    1,    1,    1,    1,    1,    1,    1,   49,    1,
+        1,    1,    1,    1,    1,    1,    1,    1,   51,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1
     } ;
 
-static const YY_CHAR yy_meta[50] =
+static const YY_CHAR yy_meta[52] =
     {   0,
         1,    2,    3,    1,    2,    1,    1,    1,    1,    1,
-        1,    1,    4,    4,    1,    1,    4,    4,    4,    4,
-        4,    4,    4,    1,    1,    1,    4,    4,    4,    4,
+        1,    1,    1,    1,    4,    4,    1,    1,    4,    4,
+        4,    4,    4,    4,    4,    1,    1,    1,    4,    4,
         4,    4,    4,    4,    4,    4,    4,    4,    4,    4,
-        4,    4,    4,    1,    1,    1,    1,    1,    1
+        4,    4,    4,    4,    4,    1,    1,    1,    1,    1,
+        1
     } ;
 
-static const flex_int16_t yy_base[273] =
+static const flex_int16_t yy_base[284] =
     {   0,
-        0,   48,  458,   53,   57,   61,   58,   62,   64,   65,
-       68,   69,   67,   75,  460,  462,  462,  462,  462,  448,
-       76,    0,  462,  462,   54,  418,  414,  421,  462,  462,
-      408,   97,  102,  430,  462,  417,  414,  404,  462,  462,
-      426,  444,  438,   85,    0,  462,  462,  107,  462,  462,
-      111,  462,  462,   94,  462,  462,  106,  118,  462,  462,
-       99,  436,  462,  462,  123,    0,  405,  405,  406,  406,
-      410,  393,  127,  462,  121,  403,  412,  390,  124,   96,
-      123,    0,  142,  462,  146,  462,  462,  151,  462,  462,
-      157,  161,  462,  462,  165,  462,  169,  131,  403,  406,
-
-      394,  404,  397,  462,  162,  411,  391,  395,  176,  171,
-      147,  419,  404,  386,  399,  185,  413,  196,  182,  201,
-      412,  462,  462,    0,  385,  394,  392,  385,  381,  386,
-      378,  392,  379,  409,  403,  190,   71,  194,  377,  373,
-      462,  462,  462,  462,  375,  369,  378,    0,  380,  370,
-      372,  380,  376,  197,  146,  374,  383,    0,    0,  369,
-      364,  363,  370,  200,  358,  371,  354,  363,    0,  353,
-      214,  351,  207,  198,  356,  210,  357,  360,  354,  462,
-      354,  361,  361,  222,  138,  347,  349,  354,  344,  225,
-      352,  343,  222,  337,  341,  232,  355,  335,  345,  352,
-
-      329,  338,  315,  235,  290,  295,  295,  299,  238,  225,
-        0,  293,  295,  298,  301,    0,  302,  283,  288,  247,
-      285,  300,  228,  250,  312,  284,  281,  286,  295,  267,
-      277,  260,  262,  278,  262,  263,  238,    0,  253,  250,
-      258,    0,  252,  255,  258,  272,  237,  275,  151,  278,
-      184,  253,  285,  263,    0,   93,    0,  288,  300,   87,
-      462,  334,  338,  342,  346,  350,  354,   73,  358,  362,
-      366,  370
+        0,   50,  494,   56,   60,   64,   53,   61,   65,   67,
+       68,   80,   82,   87,  496,  498,  498,  498,  498,  482,
+       85,    0,  498,  498,   35,  452,  448,  455,  498,  498,
+      442,  103,  111,  464,  498,  451,  448,  438,  498,  498,
+      460,  480,  472,   92,    0,  498,  498,  117,  498,  498,
+      121,  498,  498,   88,  498,  498,   94,  100,  114,  127,
+      498,  498,  117,  470,  498,  498,  131,    0,  439,  439,
+      440,  440,  444,  427,  135,  498,  130,  437,  446,  424,
+      133,   64,  131,    0,  152,  498,  156,  498,  498,  160,
+      133,  498,  165,  144,  170,  498,  498,  174,  178,  498,
+
+      498,  182,  498,  186,  179,  437,  440,  428,  438,  431,
+      498,  179,  445,  425,  429,  195,  189,  173,  453,  438,
+      420,  433,  205,  447,  211,  219,  224,  198,  228,  446,
+      498,  498,    0,  419,  428,  426,  419,  415,  420,  412,
+      426,  413,  445,  437,  227,  160,  219,  411,  407,  498,
+      498,  498,  498,  409,  403,  412,    0,  414,  404,  406,
+      414,  410,  225,  233,  408,  417,    0,    0,  403,  398,
+      397,  404,  228,  392,  405,  388,  397,    0,  387,  245,
+      385,  236,  170,  390,  250,  391,  394,  388,  498,  388,
+      395,  395,  253,  198,  381,  383,  388,  378,  258,  385,
+
+      373,  252,  364,  365,  261,  376,  354,  367,  351,  331,
+      339,  342,  264,  317,  322,  322,  326,  267,  255,    0,
+      320,  322,  325,  328,    0,  329,  310,  316,  275,  312,
+      321,  258,  289,  335,  304,  305,  309,  319,  290,  297,
+      292,  282,  304,  275,  297,  283,    0,  261,  291,  259,
+        0,  241,  223,  196,  300,  151,  303,  107,  306,  138,
+      294,  314,  297,    0,   91,    0,  328,  331,   76,  498,
+      367,  371,  375,  379,  383,  387,   71,  391,  395,  399,
+      403,  407,  411
     } ;
 
-static const flex_int16_t yy_def[273] =
+static const flex_int16_t yy_def[284] =
     {   0,
-      261,    1,  262,  262,  263,  263,  264,  264,  265,  265,
-      266,  266,  267,  267,  261,  261,  261,  261,  261,  261,
-      261,  268,  261,  261,  268,  268,  268,  268,  261,  261,
-      261,  261,  261,  261,  261,  261,  268,  261,  261,  261,
-      261,  261,  261,  261,  269,  261,  261,  269,  261,  261,
-      261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-      261,  261,  261,  261,  261,  268,  268,  268,  268,  268,
-      268,  261,  261,  261,  261,  261,  268,  261,  261,  261,
-      261,  269,  261,  261,  261,  261,  261,  261,  261,  261,
-      261,  261,  261,  261,  261,  261,  261,  261,  268,  268,
-
-      268,  268,  268,  261,  261,  261,  261,  268,  261,  261,
-      261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-      261,  261,  261,  268,  268,  268,  268,  268,  261,  261,
-      268,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-      261,  261,  261,  261,  268,  268,  268,  268,  261,  261,
-      268,  261,  261,  261,  261,  261,  261,  268,  268,  268,
-      261,  261,  268,  261,  261,  261,  261,  261,  268,  261,
-      261,  268,  261,  261,  261,  261,  261,  261,  261,  261,
-      268,  261,  261,  261,  261,  261,  261,  261,  268,  261,
-      261,  261,  261,  261,  268,  261,  261,  261,  261,  261,
-
-      261,  268,  261,  261,  261,  261,  268,  261,  261,  261,
-      270,  261,  268,  261,  261,  270,  261,  268,  261,  261,
-      261,  268,  261,  261,  261,  261,  268,  261,  261,  261,
-      268,  261,  261,  261,  268,  261,  261,  271,  261,  268,
-      261,  271,  261,  261,  261,  261,  261,  261,  261,  261,
-      261,  261,  261,  261,  272,  261,  272,  261,  261,  261,
-        0,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-      261,  261
+      270,    1,  271,  271,  272,  272,  273,  273,  274,  274,
+      275,  275,  276,  276,  270,  270,  270,  270,  270,  270,
+      270,  277,  270,  270,  277,  277,  277,  277,  270,  270,
+      270,  270,  270,  270,  270,  270,  277,  270,  270,  270,
+      270,  270,  270,  270,  278,  270,  270,  278,  270,  270,
+      270,  270,  270,  270,  270,  270,  279,  280,  270,  270,
+      270,  270,  270,  270,  270,  270,  270,  277,  277,  277,
+      277,  277,  277,  270,  270,  270,  270,  270,  277,  270,
+      270,  270,  270,  278,  270,  270,  270,  270,  270,  270,
+      279,  270,  279,  280,  280,  270,  270,  270,  270,  270,
+
+      270,  270,  270,  270,  270,  277,  277,  277,  277,  277,
+      270,  270,  270,  270,  277,  270,  270,  270,  270,  270,
+      270,  270,  270,  270,  279,  280,  270,  270,  270,  270,
+      270,  270,  277,  277,  277,  277,  277,  270,  270,  277,
+      270,  270,  270,  270,  270,  270,  270,  270,  270,  270,
+      270,  270,  270,  277,  277,  277,  277,  270,  270,  277,
+      270,  270,  270,  270,  270,  270,  277,  277,  277,  270,
+      270,  277,  270,  270,  270,  270,  270,  277,  270,  270,
+      277,  270,  270,  270,  270,  270,  270,  270,  270,  277,
+      270,  270,  270,  270,  270,  270,  270,  277,  270,  270,
+
+      270,  270,  270,  277,  270,  270,  270,  270,  270,  270,
+      277,  270,  270,  270,  270,  277,  270,  270,  270,  281,
+      270,  277,  270,  270,  281,  270,  277,  270,  270,  270,
+      277,  270,  270,  270,  270,  277,  270,  270,  270,  277,
+      270,  270,  270,  277,  270,  270,  282,  270,  277,  270,
+      282,  270,  270,  270,  270,  270,  270,  270,  270,  270,
+      270,  270,  270,  283,  270,  283,  270,  270,  270,    0,
+      270,  270,  270,  270,  270,  270,  270,  270,  270,  270,
+      270,  270,  270
     } ;
 
-static const flex_int16_t yy_nxt[512] =
+static const flex_int16_t yy_nxt[550] =
     {   0,
-       16,   17,   18,   16,   17,   16,   16,   19,   19,   16,
-       20,   21,   22,   22,   23,   24,   22,   22,   22,   22,
-       22,   22,   22,   19,   16,   16,   22,   22,   22,   25,
-       22,   22,   22,   22,   22,   22,   22,   22,   26,   27,
-       28,   22,   22,   29,   16,   30,   16,   16,   31,   32,
-       33,   34,   32,   35,   36,   40,   41,   42,   46,   47,
-       50,   46,   46,   47,   50,   46,   53,   53,   37,   60,
-       56,   56,   54,   54,  152,   61,   66,   60,   43,   57,
-       57,   48,   51,   61,   63,   48,   51,   64,   67,   80,
-      153,  245,   58,   58,   81,   68,   38,   44,   73,   73,
-
-       65,   73,   74,   73,   73,   87,   73,   74,   83,   84,
-       94,   83,   85,   86,   89,   85,  258,   90,   88,   92,
-       93,  112,   92,   95,   97,   98,  113,   97,   73,   73,
-       91,   73,   74,  105,  105,  105,  110,  110,  110,  122,
-      112,  114,  123,   83,   84,  115,   83,   85,   86,  166,
-       85,  134,  116,  117,  106,  116,  114,  111,  118,  119,
-      115,  118,   92,   93,  114,   92,  120,  121,  115,  120,
-       97,   98,  135,   97,  105,  105,  105,   73,   73,  132,
-       73,   74,  133,  110,  110,  110,  116,  117,  229,  116,
-      142,  136,  255,  143,   80,  106,  129,  118,  119,   81,
-
-      118,  182,  120,  121,  111,  120,  154,  154,  154,  154,
-      154,  154,  173,  173,  173,  180,  180,  153,  180,  173,
-      173,  173,  184,  184,  184,  199,  200,  155,  215,  200,
-      155,  228,  229,  174,  184,  184,  184,  196,  196,  196,
-      174,  241,  229,  185,  196,  196,  196,  209,  209,  209,
-      209,  209,  209,  244,  245,  185,  244,  245,  197,  224,
-      224,  224,  224,  224,  224,  197,  256,  245,  210,  252,
-      249,  210,  236,  236,  236,  236,  236,  236,  248,  247,
-      225,  246,  243,  225,  250,  250,  250,  253,  253,  253,
-      250,  250,  250,  237,  240,  239,  237,  253,  253,  253,
-
-      259,  259,  259,  238,  235,  251,  234,  233,  254,  232,
-      231,  251,  259,  259,  259,  230,  200,  227,  254,  226,
-      223,  260,  222,  221,  220,  219,  218,  217,  214,  213,
-      212,  211,  208,  260,   39,   39,   39,   39,   45,   45,
-       45,   45,   49,   49,   49,   49,   52,   52,   52,   52,
-       55,   55,   55,   55,   59,   59,   59,   59,   82,  207,
-      206,   82,  216,  216,  205,  216,  242,  242,  204,  242,
-      257,  257,  203,  257,  153,  202,  201,  157,  198,  195,
-      194,  193,  192,  191,  190,  189,  188,  187,  186,  183,
-      181,  179,  178,  177,  176,  175,  172,  171,  170,  169,
-
-      168,  167,  165,  164,  163,  162,  161,  160,  159,  158,
-      157,  156,   81,   80,   76,   75,  151,  150,  149,  148,
-      147,  146,  145,  144,  141,  140,  139,  138,  137,  131,
-      130,  129,  128,  127,  126,  125,  124,  109,  108,  107,
-      104,  103,  102,  101,  100,   99,   96,   81,   80,   79,
-       78,   77,   76,   75,   72,   71,   70,   69,   62,  261,
-       40,   15,  261,  261,  261,  261,  261,  261,  261,  261,
-      261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-      261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-      261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-
-      261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-      261
+       16,   17,   18,   16,   17,   16,   16,   16,   16,   19,
+       19,   16,   20,   21,   22,   22,   23,   24,   22,   22,
+       22,   22,   22,   22,   22,   19,   16,   16,   22,   22,
+       22,   25,   22,   22,   22,   22,   22,   22,   22,   22,
+       26,   27,   28,   22,   22,   29,   16,   30,   16,   16,
+       31,   32,   33,   34,   32,   50,   35,   36,   40,   41,
+       42,   46,   47,   50,   46,   46,   47,   53,   46,   53,
+       56,   69,   37,   57,   68,   54,   58,   54,   70,   51,
+      254,   59,   56,   43,   62,   57,   48,   51,   58,   62,
+       48,  119,   63,   59,   60,   65,   82,   63,   66,   92,
+
+       38,   89,   44,   83,   75,   75,   60,   75,   92,   76,
+      119,   67,   75,   75,   90,   75,  267,   76,   85,   86,
+       93,   85,   87,   88,   96,   87,   95,   97,   99,  100,
+      101,   99,  104,  105,  120,  104,   75,   75,   92,   75,
+       98,   76,  238,  102,  112,  112,  112,  117,  117,  117,
+      264,  121,   92,   85,   86,  122,   85,   87,   88,   93,
+       87,  123,  124,  161,  123,  113,  125,   91,  118,  125,
+       95,  126,   94,  191,  126,  127,  128,  143,  127,   99,
+      100,  162,   99,  129,  130,  261,  129,  104,  105,  131,
+      104,  162,  132,  112,  112,  112,   75,   75,  141,   75,
+
+      144,   76,  142,  117,  117,  117,  123,  124,  151,  123,
+      258,  152,  125,   91,  113,  125,   92,  138,  121,  145,
+      126,   94,  122,  126,  118,  127,  128,   92,  127,  129,
+      130,   82,  129,  163,  163,  163,  175,   93,   83,  163,
+      163,  163,  182,  182,  182,   95,  189,  189,  257,  189,
+      182,  182,  182,  121,  164,  208,  209,  122,  224,  209,
+      164,  237,  238,  183,  193,  193,  193,  193,  193,  193,
+      256,  183,  205,  205,  205,  205,  205,  205,  218,  218,
+      218,  218,  218,  218,  255,  194,  250,  238,  194,  233,
+      233,  233,  252,  206,  253,  254,  206,  253,  254,  219,
+
+      265,  254,  219,  233,  233,  233,  245,  245,  245,  249,
+      234,  245,  245,  245,  259,  259,  259,  262,  262,  262,
+      259,  259,  259,  248,  234,  247,  244,  246,  262,  262,
+      262,  243,  246,  242,  241,  260,  240,  239,  263,  209,
+      236,  260,  268,  268,  268,  268,  268,  268,  235,  263,
+      232,  231,  230,  229,  228,  227,  226,  223,  222,  221,
+      220,  217,  216,  269,  215,  214,  269,   39,   39,   39,
+       39,   45,   45,   45,   45,   49,   49,   49,   49,   52,
+       52,   52,   52,   55,   55,   55,   55,   61,   61,   61,
+       61,   84,  213,  212,   84,   91,   91,  162,   91,   94,
+
+       94,  211,   94,  225,  225,  210,  225,  251,  251,  166,
+      251,  266,  266,  207,  266,  204,  203,  202,  201,  200,
+      199,  198,  197,  196,  195,  192,  190,  188,  187,  186,
+      185,  184,  181,  180,  179,  178,  177,  176,  174,  173,
+      172,  171,  170,  169,  168,  167,  166,  165,   83,   82,
+       78,   77,  160,  159,  158,  157,  156,  155,  154,  153,
+      150,  149,  148,  147,  146,  140,  139,  138,  137,  136,
+      135,  134,  133,  116,  115,  114,  111,  110,  109,  108,
+      107,  106,  103,   83,   82,   81,   80,   79,   78,   77,
+       74,   73,   72,   71,   64,  270,   40,   15,  270,  270,
+
+      270,  270,  270,  270,  270,  270,  270,  270,  270,  270,
+      270,  270,  270,  270,  270,  270,  270,  270,  270,  270,
+      270,  270,  270,  270,  270,  270,  270,  270,  270,  270,
+      270,  270,  270,  270,  270,  270,  270,  270,  270,  270,
+      270,  270,  270,  270,  270,  270,  270,  270,  270
     } ;
 
-static const flex_int16_t yy_chk[512] =
+static const flex_int16_t yy_chk[550] =
     {   0,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
-        1,    1,    1,    1,    1,    1,    1,    1,    1,    2,
-        2,    2,    2,    2,    2,    4,    4,    4,    5,    5,
-        7,    5,    6,    6,    8,    6,    9,   10,    2,   13,
-       11,   12,    9,   10,  137,   13,  268,   14,    4,   11,
-       12,    5,    7,   14,   21,    6,    8,   21,   25,   44,
-      137,  260,   11,   12,   44,   25,    2,    4,   32,   32,
-
-       21,   32,   32,   33,   33,   54,   33,   33,   48,   48,
-       61,   48,   51,   51,   57,   51,  256,   57,   54,   58,
-       58,   80,   58,   61,   65,   65,   81,   65,   73,   73,
-       57,   73,   73,   75,   75,   75,   79,   79,   79,   98,
-       80,   81,   98,   83,   83,   81,   83,   85,   85,  155,
-       85,  111,   88,   88,   75,   88,  185,   79,   91,   91,
-      185,   91,   92,   92,  155,   92,   95,   95,  155,   95,
-       97,   97,  111,   97,  105,  105,  105,  109,  109,  109,
-      109,  109,  109,  110,  110,  110,  116,  116,  251,  116,
-      119,  111,  249,  119,  136,  105,  109,  118,  118,  136,
-
-      118,  174,  120,  120,  110,  120,  138,  138,  138,  154,
-      154,  154,  164,  164,  164,  171,  171,  174,  171,  173,
-      173,  173,  176,  176,  176,  193,  193,  138,  210,  210,
-      154,  223,  223,  164,  184,  184,  184,  190,  190,  190,
-      173,  237,  237,  176,  196,  196,  196,  204,  204,  204,
-      209,  209,  209,  240,  240,  184,  252,  252,  190,  220,
-      220,  220,  224,  224,  224,  196,  254,  254,  204,  247,
-      245,  209,  232,  232,  232,  236,  236,  236,  244,  243,
-      220,  241,  239,  224,  246,  246,  246,  248,  248,  248,
-      250,  250,  250,  232,  235,  234,  236,  253,  253,  253,
-
-      258,  258,  258,  233,  231,  246,  230,  229,  248,  228,
-      227,  250,  259,  259,  259,  226,  225,  222,  253,  221,
-      219,  258,  218,  217,  215,  214,  213,  212,  208,  207,
-      206,  205,  203,  259,  262,  262,  262,  262,  263,  263,
-      263,  263,  264,  264,  264,  264,  265,  265,  265,  265,
-      266,  266,  266,  266,  267,  267,  267,  267,  269,  202,
-      201,  269,  270,  270,  200,  270,  271,  271,  199,  271,
-      272,  272,  198,  272,  197,  195,  194,  192,  191,  189,
-      188,  187,  186,  183,  182,  181,  179,  178,  177,  175,
-      172,  170,  168,  167,  166,  165,  163,  162,  161,  160,
-
-      157,  156,  153,  152,  151,  150,  149,  147,  146,  145,
-      140,  139,  135,  134,  133,  132,  131,  130,  129,  128,
-      127,  126,  125,  121,  117,  115,  114,  113,  112,  108,
-      107,  106,  103,  102,  101,  100,   99,   78,   77,   76,
-       72,   71,   70,   69,   68,   67,   62,   43,   42,   41,
-       38,   37,   36,   34,   31,   28,   27,   26,   20,   15,
-        3,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-      261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-      261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-      261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-
-      261,  261,  261,  261,  261,  261,  261,  261,  261,  261,
-      261
+        1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
+        1,    2,    2,    2,    2,    7,    2,    2,    4,    4,
+        4,    5,    5,    8,    5,    6,    6,    9,    6,   10,
+       11,   25,    2,   11,  277,    9,   11,   10,   25,    7,
+      269,   11,   12,    4,   13,   12,    5,    8,   12,   14,
+        6,   82,   13,   12,   11,   21,   44,   14,   21,   57,
+
+        2,   54,    4,   44,   32,   32,   12,   32,   58,   32,
+       82,   21,   33,   33,   54,   33,  265,   33,   48,   48,
+       57,   48,   51,   51,   59,   51,   58,   59,   60,   60,
+       63,   60,   67,   67,   83,   67,   75,   75,   91,   75,
+       59,   75,  260,   63,   77,   77,   77,   81,   81,   81,
+      258,   83,   94,   85,   85,   83,   85,   87,   87,   91,
+       87,   90,   90,  146,   90,   77,   93,   93,   81,   93,
+       94,   95,   95,  183,   95,   98,   98,  118,   98,   99,
+       99,  146,   99,  102,  102,  256,  102,  104,  104,  105,
+      104,  183,  105,  112,  112,  112,  116,  116,  116,  116,
+
+      118,  116,  116,  117,  117,  117,  123,  123,  128,  123,
+      254,  128,  125,  125,  112,  125,  125,  116,  194,  118,
+      126,  126,  194,  126,  117,  127,  127,  126,  127,  129,
+      129,  145,  129,  147,  147,  147,  164,  125,  145,  163,
+      163,  163,  173,  173,  173,  126,  180,  180,  253,  180,
+      182,  182,  182,  164,  147,  202,  202,  164,  219,  219,
+      163,  232,  232,  173,  185,  185,  185,  193,  193,  193,
+      252,  182,  199,  199,  199,  205,  205,  205,  213,  213,
+      213,  218,  218,  218,  250,  185,  246,  246,  193,  229,
+      229,  229,  248,  199,  249,  249,  205,  261,  261,  213,
+
+      263,  263,  218,  233,  233,  233,  241,  241,  241,  244,
+      229,  245,  245,  245,  255,  255,  255,  257,  257,  257,
+      259,  259,  259,  243,  233,  242,  240,  241,  262,  262,
+      262,  239,  245,  238,  237,  255,  236,  235,  257,  234,
+      231,  259,  267,  267,  267,  268,  268,  268,  230,  262,
+      228,  227,  226,  224,  223,  222,  221,  217,  216,  215,
+      214,  212,  211,  267,  210,  209,  268,  271,  271,  271,
+      271,  272,  272,  272,  272,  273,  273,  273,  273,  274,
+      274,  274,  274,  275,  275,  275,  275,  276,  276,  276,
+      276,  278,  208,  207,  278,  279,  279,  206,  279,  280,
+
+      280,  204,  280,  281,  281,  203,  281,  282,  282,  201,
+      282,  283,  283,  200,  283,  198,  197,  196,  195,  192,
+      191,  190,  188,  187,  186,  184,  181,  179,  177,  176,
+      175,  174,  172,  171,  170,  169,  166,  165,  162,  161,
+      160,  159,  158,  156,  155,  154,  149,  148,  144,  143,
+      142,  141,  140,  139,  138,  137,  136,  135,  134,  130,
+      124,  122,  121,  120,  119,  115,  114,  113,  110,  109,
+      108,  107,  106,   80,   79,   78,   74,   73,   72,   71,
+       70,   69,   64,   43,   42,   41,   38,   37,   36,   34,
+       31,   28,   27,   26,   20,   15,    3,  270,  270,  270,
+
+      270,  270,  270,  270,  270,  270,  270,  270,  270,  270,
+      270,  270,  270,  270,  270,  270,  270,  270,  270,  270,
+      270,  270,  270,  270,  270,  270,  270,  270,  270,  270,
+      270,  270,  270,  270,  270,  270,  270,  270,  270,  270,
+      270,  270,  270,  270,  270,  270,  270,  270,  270
     } ;
 
 /* Table of booleans, true if rule could match eol. */
-static const flex_int32_t yy_rule_can_match_eol[50] =
+static const flex_int32_t yy_rule_can_match_eol[51] =
     {   0,
 0, 0, 0, 1, 0, 1, 1, 0, 1, 0, 0, 1, 1, 1, 0, 0, 1, 0, 1, 
-    1, 0, 1, 0, 1, 0, 1, 1, 1, 0, 0, 1, 1, 0, 0, 1, 0, 0, 0, 0, 
-    0, 0, 0, 0, 0, 0, 0, 0, 0, 0,     };
+    1, 0, 1, 0, 1, 0, 1, 1, 1, 1, 0, 0, 1, 1, 0, 0, 1, 0, 0, 0, 
+    0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,     };
 
 static yy_state_type yy_last_accepting_state;
 static char *yy_last_accepting_cpos;
@@ -957,13 +966,13 @@ yy_match:
 			while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 				{
 				yy_current_state = (int) yy_def[yy_current_state];
-				if ( yy_current_state >= 262 )
+				if ( yy_current_state >= 271 )
 					yy_c = yy_meta[yy_c];
 				}
 			yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
 			++yy_cp;
 			}
-		while ( yy_current_state != 261 );
+		while ( yy_current_state != 270 );
 		yy_cp = (yy_last_accepting_cpos);
 		yy_current_state = (yy_last_accepting_state);
 
@@ -1113,71 +1122,72 @@ YY_RULE_SETUP
 case 27:
 /* rule 27 can match eol */
 YY_RULE_SETUP
-{ /* line split */ }
+{ /* string or character, cannot begin a comment */ }
 	YY_BREAK
 case 28:
 /* rule 28 can match eol */
 YY_RULE_SETUP
-{ BEGIN(INITIAL); /* end */ }
+{ /* line split */ }
 	YY_BREAK
 case 29:
+/* rule 29 can match eol */
 YY_RULE_SETUP
-{ }
+{ BEGIN(INITIAL); /* end */ }
 	YY_BREAK
 case 30:
 YY_RULE_SETUP
-{ BEGIN(PRE); /* continue PRE line */ }
+{ }
 	YY_BREAK
 case 31:
-/* rule 31 can match eol */
 YY_RULE_SETUP
 { BEGIN(PRE); /* continue PRE line */ }
 	YY_BREAK
 case 32:
 /* rule 32 can match eol */
 YY_RULE_SETUP
-{ }
+{ BEGIN(PRE); /* continue PRE line */ }
 	YY_BREAK
 case 33:
+/* rule 33 can match eol */
 YY_RULE_SETUP
 { }
 	YY_BREAK
 case 34:
 YY_RULE_SETUP
-{ /* UTF-8 byte order mark */ }
+{ }
 	YY_BREAK
 case 35:
-/* rule 35 can match eol */
 YY_RULE_SETUP
-{ }
+{ /* UTF-8 byte order mark */ }
 	YY_BREAK
 case 36:
+/* rule 36 can match eol */
 YY_RULE_SETUP
-{ /* ignore "extern" keyword */ }
+{ }
 	YY_BREAK
 case 37:
 YY_RULE_SETUP
-{ return LEX_STRUCT; }
+{ /* ignore "extern" keyword */ }
 	YY_BREAK
 case 38:
 YY_RULE_SETUP
-{ return LEX_UNION; }
+{ return LEX_STRUCT; }
 	YY_BREAK
 case 39:
 YY_RULE_SETUP
-{ return LEX_ENUM; }
+{ return LEX_UNION; }
 	YY_BREAK
 case 40:
 YY_RULE_SETUP
-{ return LEX_TYPEDEF; }
+{ return LEX_ENUM; }
 	YY_BREAK
 case 41:
 YY_RULE_SETUP
-{ return LEX_ID; }
+{ return LEX_TYPEDEF; }
 	YY_BREAK
 case 42:
 YY_RULE_SETUP
-{ return LEX_OTHER; }
+{ return LEX_ID; }
 	YY_BREAK
 case 43:
 YY_RULE_SETUP
@@ -1185,26 +1195,30 @@ YY_RULE_SETUP
 	YY_BREAK
 case 44:
 YY_RULE_SETUP
-{ return LEX_CURLY_OPEN; }
+{ return LEX_OTHER; }
 	YY_BREAK
 case 45:
 YY_RULE_SETUP
-{ return LEX_CURLY_CLOSE; }
+{ return LEX_CURLY_OPEN; }
 	YY_BREAK
 case 46:
 YY_RULE_SETUP
-{ return LEX_EQUAL; }
+{ return LEX_CURLY_CLOSE; }
 	YY_BREAK
 case 47:
 YY_RULE_SETUP
-{ return LEX_SEMICOLON; }
+{ return LEX_EQUAL; }
 	YY_BREAK
 case 48:
 YY_RULE_SETUP
-{ set_illegal_char(); return LEX_ERROR; }
+{ return LEX_SEMICOLON; }
 	YY_BREAK
 case 49:
 YY_RULE_SETUP
+{ set_illegal_char(); return LEX_ERROR; }
+	YY_BREAK
+case 50:
+YY_RULE_SETUP
 ECHO;
 	YY_BREAK
 case YY_STATE_EOF(INITIAL):
@@ -1511,7 +1525,7 @@ static int yy_get_next_buffer (void)
 		while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 			{
 			yy_current_state = (int) yy_def[yy_current_state];
-			if ( yy_current_state >= 262 )
+			if ( yy_current_state >= 271 )
 				yy_c = yy_meta[yy_c];
 			}
 		yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
@@ -1539,11 +1553,11 @@ static int yy_get_next_buffer (void)
 	while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 		{
 		yy_current_state = (int) yy_def[yy_current_state];
-		if ( yy_current_state >= 262 )
+		if ( yy_current_state >= 271 )
 			yy_c = yy_meta[yy_c];
 		}
 	yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
-	yy_is_jam = (yy_current_state == 261);
+	yy_is_jam = (yy_current_state == 270);
 
 		return yy_is_jam ? 0 : yy_current_state;
 }
-- 
2.43.0


From 68d243a16465feae262c52188752a0c5f2204868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:59 +0000
Subject: [PATCH 05/56] fix: comments in front of a preprocessor directive

---
 src/lex.l    |   3 +-
 src/lex.yy.c | 419 ++++++++++++++++++++++++++-------------------------
 2 files changed, 214 insertions(+), 208 deletions(-)

diff --git a/src/lex.l b/src/lex.l
index 0d6a54a..0f36c3e 100644
--- a/src/lex.l
+++ b/src/lex.l
@@ -51,7 +51,8 @@ parmvar             ^({col})?[| ]" "[|`]"-"({col})?({col})?"ParmVarDecl"({col})?
 option              ^({bom})?"%option"[[:space:]]
 optstr              [^[:space:]]+
 
-preproc             ^({bom})?[[:space:]]*?"#"
+c_comment           "/*"([^*]|"*"+[^*/])*"*"+"/"
+preproc             ^({bom})?([[:space:]]|{c_comment})*"#"
 
 literal             \"([^"\\\n]|\\[^\n]|{split})*\"|'([^'\\\n]|\\[^\n]|{split})*'
 
diff --git a/src/lex.yy.c b/src/lex.yy.c
index 332d45d..057b413 100644
--- a/src/lex.yy.c
+++ b/src/lex.yy.c
@@ -380,37 +380,38 @@ struct yy_trans_info
 	flex_int32_t yy_verify;
 	flex_int32_t yy_nxt;
 	};
-static const flex_int16_t yy_accept[271] =
+static const flex_int16_t yy_accept[277] =
     {   0,
         0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
         0,    0,    0,    0,   51,   49,   36,   36,   43,   49,
        49,   42,   48,   47,   42,   42,   42,   42,   45,   46,
-       49,   36,   36,   49,   22,   49,   42,   49,    5,    4,
-        5,    5,    5,    5,    8,   10,    9,    8,   15,   14,
-       15,   21,   20,   21,   30,   29,   30,   30,   30,   30,
-       34,   33,   34,    0,   16,   11,    0,   42,   42,   42,
-       42,   42,   42,    0,    0,   22,    0,    0,   42,    0,
-        0,    0,    0,    8,    0,    7,    0,   13,   18,    0,
-        0,   27,    0,    0,    0,   23,   25,    0,    0,   28,
-
-       31,    0,   44,    0,    0,   42,   42,   42,   42,   42,
-       35,    0,    0,    0,   42,   35,    0,    0,    0,    0,
-        0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
-       17,   12,   40,   42,   42,   42,   42,    0,    0,   42,
-        0,    0,    0,    0,    0,    0,    0,    0,    0,   19,
-       24,   26,   32,   42,   42,   42,   39,    0,    0,   42,
-        0,    0,    0,    0,    0,    0,   37,   38,   42,    0,
-        0,   42,    0,    0,    0,    0,    0,   41,    0,    0,
-       42,    0,    0,    0,    0,    0,    0,    0,    6,   42,
-        0,    0,    0,    0,    0,    0,    0,   42,    0,    0,
-
-        0,    0,    0,   42,    0,    0,    0,    0,    0,    0,
-       42,    0,    0,    0,    0,   42,    0,    0,    0,    2,
-        0,   42,    0,    0,    2,    0,   42,    0,    0,    0,
-       42,    0,    0,    0,    0,   42,    0,    0,    0,   42,
-        0,    0,    0,   42,    0,    0,    3,    0,   42,    0,
-        3,    0,    0,    0,    0,    0,    0,    0,    0,    0,
-        0,    0,    0,    1,    0,    1,    0,    0,    0,    0
+       49,   36,   36,   49,   22,   49,   49,   42,   49,    5,
+        4,    5,    5,    5,    5,    8,   10,    9,    8,   15,
+       14,   15,   21,   20,   21,   30,   29,   30,   30,   30,
+       30,   34,   33,   34,    0,   16,   11,    0,   42,   42,
+       42,   42,   42,   42,    0,    0,   22,    0,    0,    0,
+       16,   42,    0,    0,    0,    0,    8,    0,    7,    0,
+       13,   18,    0,    0,   27,    0,    0,    0,   23,   25,
+
+        0,    0,   28,   31,    0,   44,    0,    0,   42,   42,
+       42,   42,   42,   35,    0,    0,    0,    0,    0,    0,
+       42,   35,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,    0,    0,   17,   12,   40,   42,
+       42,   42,   42,    0,    0,   42,    0,    0,    0,    0,
+        0,    0,    0,    0,    0,   19,   24,   26,   32,   42,
+       42,   42,   39,    0,    0,   42,    0,    0,    0,    0,
+        0,    0,   37,   38,   42,    0,    0,   42,    0,    0,
+        0,    0,    0,   41,    0,    0,   42,    0,    0,    0,
+        0,    0,    0,    0,    6,   42,    0,    0,    0,    0,
+
+        0,    0,    0,   42,    0,    0,    0,    0,    0,   42,
+        0,    0,    0,    0,    0,    0,   42,    0,    0,    0,
+        0,   42,    0,    0,    0,    2,    0,   42,    0,    0,
+        2,    0,   42,    0,    0,    0,   42,    0,    0,    0,
+        0,   42,    0,    0,    0,   42,    0,    0,    0,   42,
+        0,    0,    3,    0,   42,    0,    3,    0,    0,    0,
+        0,    0,    0,    0,    0,    0,    0,    0,    0,    1,
+        0,    1,    0,    0,    0,    0
     } ;
 
 static const YY_CHAR yy_ec[256] =
@@ -455,141 +456,143 @@ static const YY_CHAR yy_meta[52] =
         1
     } ;
 
-static const flex_int16_t yy_base[284] =
+static const flex_int16_t yy_base[291] =
     {   0,
-        0,   50,  494,   56,   60,   64,   53,   61,   65,   67,
-       68,   80,   82,   87,  496,  498,  498,  498,  498,  482,
-       85,    0,  498,  498,   35,  452,  448,  455,  498,  498,
-      442,  103,  111,  464,  498,  451,  448,  438,  498,  498,
-      460,  480,  472,   92,    0,  498,  498,  117,  498,  498,
-      121,  498,  498,   88,  498,  498,   94,  100,  114,  127,
-      498,  498,  117,  470,  498,  498,  131,    0,  439,  439,
-      440,  440,  444,  427,  135,  498,  130,  437,  446,  424,
-      133,   64,  131,    0,  152,  498,  156,  498,  498,  160,
-      133,  498,  165,  144,  170,  498,  498,  174,  178,  498,
-
-      498,  182,  498,  186,  179,  437,  440,  428,  438,  431,
-      498,  179,  445,  425,  429,  195,  189,  173,  453,  438,
-      420,  433,  205,  447,  211,  219,  224,  198,  228,  446,
-      498,  498,    0,  419,  428,  426,  419,  415,  420,  412,
-      426,  413,  445,  437,  227,  160,  219,  411,  407,  498,
-      498,  498,  498,  409,  403,  412,    0,  414,  404,  406,
-      414,  410,  225,  233,  408,  417,    0,    0,  403,  398,
-      397,  404,  228,  392,  405,  388,  397,    0,  387,  245,
-      385,  236,  170,  390,  250,  391,  394,  388,  498,  388,
-      395,  395,  253,  198,  381,  383,  388,  378,  258,  385,
-
-      373,  252,  364,  365,  261,  376,  354,  367,  351,  331,
-      339,  342,  264,  317,  322,  322,  326,  267,  255,    0,
-      320,  322,  325,  328,    0,  329,  310,  316,  275,  312,
-      321,  258,  289,  335,  304,  305,  309,  319,  290,  297,
-      292,  282,  304,  275,  297,  283,    0,  261,  291,  259,
-        0,  241,  223,  196,  300,  151,  303,  107,  306,  138,
-      294,  314,  297,    0,   91,    0,  328,  331,   76,  498,
-      367,  371,  375,  379,  383,  387,   71,  391,  395,  399,
-      403,  407,  411
+        0,   50,  512,   56,   60,   64,   53,   65,   67,   68,
+       79,   80,   87,   93,  514,  516,  516,  516,  516,  500,
+       86,    0,  516,  516,   37,  470,  466,  473,  516,  516,
+      460,  107,  113,  482,  516,  469,   97,  466,  456,  516,
+      516,  478,  498,  490,   90,    0,  516,  516,  120,  516,
+      516,  126,  516,  516,  103,  516,  516,   99,  110,  121,
+      131,  516,  516,  124,  488,  516,  516,  137,    0,  457,
+      457,  458,  458,  462,  445,  142,  516,  483,  137,  454,
+      481,  462,  440,  142,  113,  142,    0,  159,  516,  163,
+      516,  516,  167,  144,  516,  172,  167,  177,  516,  516,
+
+      181,  185,  516,  516,  190,  516,  194,   61,  453,  456,
+      444,  454,  447,  516,  473,  185,  460,  440,  470,  192,
+      443,  220,  193,  184,  467,  452,  434,  447,  202,  461,
+      211,  230,  239,  204,  243,  460,  516,  516,    0,  433,
+      442,  440,  433,  429,  434,  426,  440,  427,  459,  451,
+      186,  215,  234,  425,  421,  516,  516,  516,  516,  423,
+      417,  426,    0,  428,  418,  420,  428,  424,  237,  243,
+      422,  431,    0,    0,  417,  412,  411,  418,  243,  406,
+      419,  402,  411,    0,  401,  260,  399,  259,  262,  404,
+      265,  405,  408,  402,  516,  402,  408,  405,  270,  160,
+
+      388,  383,  385,  372,  273,  380,  345,   72,  339,  343,
+      276,  357,  337,  350,  360,  340,  348,  351,  281,  326,
+      331,  331,  335,  287,  251,    0,  329,  331,  330,  329,
+        0,  326,  307,  312,  298,  309,  324,  267,  303,  338,
+      304,  301,  296,  306,  274,  275,  309,  250,  263,  234,
+      312,  273,    0,  235,  295,  235,    0,  210,  210,  215,
+      315,  191,  320,  176,  325,  206,  303,  337,  306,    0,
+      129,    0,  342,  347,  138,  516,  383,  387,  391,  395,
+      399,  403,   95,  407,  411,  415,  419,  423,  427,  431
     } ;
 
-static const flex_int16_t yy_def[284] =
+static const flex_int16_t yy_def[291] =
     {   0,
-      270,    1,  271,  271,  272,  272,  273,  273,  274,  274,
-      275,  275,  276,  276,  270,  270,  270,  270,  270,  270,
-      270,  277,  270,  270,  277,  277,  277,  277,  270,  270,
-      270,  270,  270,  270,  270,  270,  277,  270,  270,  270,
-      270,  270,  270,  270,  278,  270,  270,  278,  270,  270,
-      270,  270,  270,  270,  270,  270,  279,  280,  270,  270,
-      270,  270,  270,  270,  270,  270,  270,  277,  277,  277,
-      277,  277,  277,  270,  270,  270,  270,  270,  277,  270,
-      270,  270,  270,  278,  270,  270,  270,  270,  270,  270,
-      279,  270,  279,  280,  280,  270,  270,  270,  270,  270,
-
-      270,  270,  270,  270,  270,  277,  277,  277,  277,  277,
-      270,  270,  270,  270,  277,  270,  270,  270,  270,  270,
-      270,  270,  270,  270,  279,  280,  270,  270,  270,  270,
-      270,  270,  277,  277,  277,  277,  277,  270,  270,  277,
-      270,  270,  270,  270,  270,  270,  270,  270,  270,  270,
-      270,  270,  270,  277,  277,  277,  277,  270,  270,  277,
-      270,  270,  270,  270,  270,  270,  277,  277,  277,  270,
-      270,  277,  270,  270,  270,  270,  270,  277,  270,  270,
-      277,  270,  270,  270,  270,  270,  270,  270,  270,  277,
-      270,  270,  270,  270,  270,  270,  270,  277,  270,  270,
-
-      270,  270,  270,  277,  270,  270,  270,  270,  270,  270,
-      277,  270,  270,  270,  270,  277,  270,  270,  270,  281,
-      270,  277,  270,  270,  281,  270,  277,  270,  270,  270,
-      277,  270,  270,  270,  270,  277,  270,  270,  270,  277,
-      270,  270,  270,  277,  270,  270,  282,  270,  277,  270,
-      282,  270,  270,  270,  270,  270,  270,  270,  270,  270,
-      270,  270,  270,  283,  270,  283,  270,  270,  270,    0,
-      270,  270,  270,  270,  270,  270,  270,  270,  270,  270,
-      270,  270,  270
+      276,    1,  277,  277,  278,  278,  279,  279,  280,  280,
+      281,  281,  282,  282,  276,  276,  276,  276,  276,  276,
+      276,  283,  276,  276,  283,  283,  283,  283,  276,  276,
+      276,  276,  276,  276,  276,  276,  276,  283,  276,  276,
+      276,  276,  276,  276,  276,  284,  276,  276,  284,  276,
+      276,  276,  276,  276,  276,  276,  276,  285,  286,  276,
+      276,  276,  276,  276,  276,  276,  276,  276,  283,  283,
+      283,  283,  283,  283,  276,  276,  276,  276,  276,  276,
+      287,  283,  276,  276,  276,  276,  284,  276,  276,  276,
+      276,  276,  276,  285,  276,  285,  286,  286,  276,  276,
+
+      276,  276,  276,  276,  276,  276,  276,  276,  283,  283,
+      283,  283,  283,  276,  287,  276,  276,  276,  287,  287,
+      283,  276,  276,  276,  276,  276,  276,  276,  276,  276,
+      285,  286,  276,  276,  276,  276,  276,  276,  283,  283,
+      283,  283,  283,  276,  276,  283,  276,  276,  276,  276,
+      276,  276,  276,  276,  276,  276,  276,  276,  276,  283,
+      283,  283,  283,  276,  276,  283,  276,  276,  276,  276,
+      276,  276,  283,  283,  283,  276,  276,  283,  276,  276,
+      276,  276,  276,  283,  276,  276,  283,  276,  276,  276,
+      276,  276,  276,  276,  276,  283,  276,  276,  276,  276,
+
+      276,  276,  276,  283,  276,  276,  276,  276,  276,  283,
+      276,  276,  276,  276,  276,  276,  283,  276,  276,  276,
+      276,  283,  276,  276,  276,  288,  276,  283,  276,  276,
+      288,  276,  283,  276,  276,  276,  283,  276,  276,  276,
+      276,  283,  276,  276,  276,  283,  276,  276,  276,  283,
+      276,  276,  289,  276,  283,  276,  289,  276,  276,  276,
+      276,  276,  276,  276,  276,  276,  276,  276,  276,  290,
+      276,  290,  276,  276,  276,    0,  276,  276,  276,  276,
+      276,  276,  276,  276,  276,  276,  276,  276,  276,  276
     } ;
 
-static const flex_int16_t yy_nxt[550] =
+static const flex_int16_t yy_nxt[568] =
     {   0,
        16,   17,   18,   16,   17,   16,   16,   16,   16,   19,
        19,   16,   20,   21,   22,   22,   23,   24,   22,   22,
        22,   22,   22,   22,   22,   19,   16,   16,   22,   22,
        22,   25,   22,   22,   22,   22,   22,   22,   22,   22,
        26,   27,   28,   22,   22,   29,   16,   30,   16,   16,
-       31,   32,   33,   34,   32,   50,   35,   36,   40,   41,
-       42,   46,   47,   50,   46,   46,   47,   53,   46,   53,
-       56,   69,   37,   57,   68,   54,   58,   54,   70,   51,
-      254,   59,   56,   43,   62,   57,   48,   51,   58,   62,
-       48,  119,   63,   59,   60,   65,   82,   63,   66,   92,
-
-       38,   89,   44,   83,   75,   75,   60,   75,   92,   76,
-      119,   67,   75,   75,   90,   75,  267,   76,   85,   86,
-       93,   85,   87,   88,   96,   87,   95,   97,   99,  100,
-      101,   99,  104,  105,  120,  104,   75,   75,   92,   75,
-       98,   76,  238,  102,  112,  112,  112,  117,  117,  117,
-      264,  121,   92,   85,   86,  122,   85,   87,   88,   93,
-       87,  123,  124,  161,  123,  113,  125,   91,  118,  125,
-       95,  126,   94,  191,  126,  127,  128,  143,  127,   99,
-      100,  162,   99,  129,  130,  261,  129,  104,  105,  131,
-      104,  162,  132,  112,  112,  112,   75,   75,  141,   75,
-
-      144,   76,  142,  117,  117,  117,  123,  124,  151,  123,
-      258,  152,  125,   91,  113,  125,   92,  138,  121,  145,
-      126,   94,  122,  126,  118,  127,  128,   92,  127,  129,
-      130,   82,  129,  163,  163,  163,  175,   93,   83,  163,
-      163,  163,  182,  182,  182,   95,  189,  189,  257,  189,
-      182,  182,  182,  121,  164,  208,  209,  122,  224,  209,
-      164,  237,  238,  183,  193,  193,  193,  193,  193,  193,
-      256,  183,  205,  205,  205,  205,  205,  205,  218,  218,
-      218,  218,  218,  218,  255,  194,  250,  238,  194,  233,
-      233,  233,  252,  206,  253,  254,  206,  253,  254,  219,
-
-      265,  254,  219,  233,  233,  233,  245,  245,  245,  249,
-      234,  245,  245,  245,  259,  259,  259,  262,  262,  262,
-      259,  259,  259,  248,  234,  247,  244,  246,  262,  262,
-      262,  243,  246,  242,  241,  260,  240,  239,  263,  209,
-      236,  260,  268,  268,  268,  268,  268,  268,  235,  263,
-      232,  231,  230,  229,  228,  227,  226,  223,  222,  221,
-      220,  217,  216,  269,  215,  214,  269,   39,   39,   39,
-       39,   45,   45,   45,   45,   49,   49,   49,   49,   52,
-       52,   52,   52,   55,   55,   55,   55,   61,   61,   61,
-       61,   84,  213,  212,   84,   91,   91,  162,   91,   94,
-
-       94,  211,   94,  225,  225,  210,  225,  251,  251,  166,
-      251,  266,  266,  207,  266,  204,  203,  202,  201,  200,
-      199,  198,  197,  196,  195,  192,  190,  188,  187,  186,
-      185,  184,  181,  180,  179,  178,  177,  176,  174,  173,
-      172,  171,  170,  169,  168,  167,  166,  165,   83,   82,
-       78,   77,  160,  159,  158,  157,  156,  155,  154,  153,
-      150,  149,  148,  147,  146,  140,  139,  138,  137,  136,
-      135,  134,  133,  116,  115,  114,  111,  110,  109,  108,
-      107,  106,  103,   83,   82,   81,   80,   79,   78,   77,
-       74,   73,   72,   71,   64,  270,   40,   15,  270,  270,
-
-      270,  270,  270,  270,  270,  270,  270,  270,  270,  270,
-      270,  270,  270,  270,  270,  270,  270,  270,  270,  270,
-      270,  270,  270,  270,  270,  270,  270,  270,  270,  270,
-      270,  270,  270,  270,  270,  270,  270,  270,  270,  270,
-      270,  270,  270,  270,  270,  270,  270,  270,  270
+       31,   32,   33,   34,   32,   51,   35,   36,   41,   42,
+       43,   47,   48,   37,   47,   47,   48,   51,   47,   54,
+       54,  137,   38,   70,  138,  214,  215,   55,   55,   52,
+       71,   57,   57,   44,   58,   58,   49,   59,   59,   63,
+       49,   52,   60,   60,   85,   63,   66,   64,   69,   67,
+
+       39,   86,   45,   64,   95,   61,   61,   81,   76,   76,
+       67,   76,   68,   77,   76,   76,   92,   76,   95,   77,
+       78,   88,   89,   68,   88,   96,   78,   90,   91,   93,
+       90,   99,  102,  103,  100,  102,   98,  104,  107,  108,
+      125,  107,  260,   76,   76,  126,   76,  101,   77,   95,
+      105,  116,  116,  116,  273,   78,  123,  123,  123,  125,
+       88,   89,  127,   88,   90,   91,  128,   90,  129,  130,
+       96,  129,  117,  131,   94,   95,  131,  124,  132,   97,
+      127,  132,  133,  134,  128,  133,  102,  103,  149,  102,
+       85,  135,  136,   98,  135,  107,  108,   86,  107,  116,
+
+      116,  116,  120,  129,  130,   76,  129,  123,  123,  123,
+      244,  150,  131,   94,  157,  131,   95,  158,  167,  270,
+      117,   76,   76,  147,   76,  267,   77,  148,  124,  264,
+      151,  132,   97,   78,  132,  263,  168,   96,   95,  262,
+      133,  134,  144,  133,  135,  136,  181,  135,  169,  169,
+      169,  169,  169,  169,  230,  215,   98,  188,  188,  188,
+      261,  195,  195,  127,  195,  197,  258,  128,  255,  170,
+      243,  244,  170,  188,  188,  188,  256,  244,  189,  199,
+      199,  199,  254,  168,  199,  199,  199,  211,  211,  211,
+      211,  211,  211,  253,  189,  224,  224,  224,  259,  260,
+
+      200,  224,  224,  224,  250,  200,  259,  260,  212,  271,
+      260,  212,  239,  239,  239,  249,  225,  239,  239,  239,
+      248,  247,  225,  251,  251,  251,  251,  251,  251,  265,
+      265,  265,  246,  240,  268,  268,  268,  245,  240,  265,
+      265,  265,  215,  242,  252,  241,  238,  252,  237,  236,
+      266,  268,  268,  268,  235,  269,  274,  274,  274,  234,
+      266,  274,  274,  274,  233,  232,  229,  228,  227,  226,
+      223,  222,  269,  221,  220,  219,  218,  275,  168,  217,
+      216,  172,  275,   40,   40,   40,   40,   46,   46,   46,
+       46,   50,   50,   50,   50,   53,   53,   53,   53,   56,
+
+       56,   56,   56,   62,   62,   62,   62,   87,  213,  210,
+       87,   94,   94,  209,   94,   97,   97,  208,   97,  119,
+      119,  119,  119,  231,  231,  207,  231,  257,  257,  206,
+      257,  272,  272,  205,  272,  204,  203,  202,  201,  198,
+      196,  194,  193,  192,  191,  190,  187,  186,  185,  184,
+      183,  182,  180,  179,  178,  177,  176,  175,  174,  173,
+      172,  171,   86,   85,   80,   79,  166,  165,  164,  163,
+      162,  161,  160,  159,  156,  155,  154,  153,  152,  146,
+      120,  145,  144,  120,  143,  142,  141,  140,  139,  122,
+      121,  120,  118,  115,  114,  113,  112,  111,  110,  109,
+
+      106,   86,   85,   84,   83,   82,   80,   79,   75,   74,
+       73,   72,   65,  276,   41,   15,  276,  276,  276,  276,
+      276,  276,  276,  276,  276,  276,  276,  276,  276,  276,
+      276,  276,  276,  276,  276,  276,  276,  276,  276,  276,
+      276,  276,  276,  276,  276,  276,  276,  276,  276,  276,
+      276,  276,  276,  276,  276,  276,  276,  276,  276,  276,
+      276,  276,  276,  276,  276,  276,  276
     } ;
 
-static const flex_int16_t yy_chk[550] =
+static const flex_int16_t yy_chk[568] =
     {   0,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
@@ -597,60 +600,62 @@ static const flex_int16_t yy_chk[550] =
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    2,    2,    2,    2,    7,    2,    2,    4,    4,
-        4,    5,    5,    8,    5,    6,    6,    9,    6,   10,
-       11,   25,    2,   11,  277,    9,   11,   10,   25,    7,
-      269,   11,   12,    4,   13,   12,    5,    8,   12,   14,
-        6,   82,   13,   12,   11,   21,   44,   14,   21,   57,
-
-        2,   54,    4,   44,   32,   32,   12,   32,   58,   32,
-       82,   21,   33,   33,   54,   33,  265,   33,   48,   48,
-       57,   48,   51,   51,   59,   51,   58,   59,   60,   60,
-       63,   60,   67,   67,   83,   67,   75,   75,   91,   75,
-       59,   75,  260,   63,   77,   77,   77,   81,   81,   81,
-      258,   83,   94,   85,   85,   83,   85,   87,   87,   91,
-       87,   90,   90,  146,   90,   77,   93,   93,   81,   93,
-       94,   95,   95,  183,   95,   98,   98,  118,   98,   99,
-       99,  146,   99,  102,  102,  256,  102,  104,  104,  105,
-      104,  183,  105,  112,  112,  112,  116,  116,  116,  116,
-
-      118,  116,  116,  117,  117,  117,  123,  123,  128,  123,
-      254,  128,  125,  125,  112,  125,  125,  116,  194,  118,
-      126,  126,  194,  126,  117,  127,  127,  126,  127,  129,
-      129,  145,  129,  147,  147,  147,  164,  125,  145,  163,
-      163,  163,  173,  173,  173,  126,  180,  180,  253,  180,
-      182,  182,  182,  164,  147,  202,  202,  164,  219,  219,
-      163,  232,  232,  173,  185,  185,  185,  193,  193,  193,
-      252,  182,  199,  199,  199,  205,  205,  205,  213,  213,
-      213,  218,  218,  218,  250,  185,  246,  246,  193,  229,
-      229,  229,  248,  199,  249,  249,  205,  261,  261,  213,
-
-      263,  263,  218,  233,  233,  233,  241,  241,  241,  244,
-      229,  245,  245,  245,  255,  255,  255,  257,  257,  257,
-      259,  259,  259,  243,  233,  242,  240,  241,  262,  262,
-      262,  239,  245,  238,  237,  255,  236,  235,  257,  234,
-      231,  259,  267,  267,  267,  268,  268,  268,  230,  262,
-      228,  227,  226,  224,  223,  222,  221,  217,  216,  215,
-      214,  212,  211,  267,  210,  209,  268,  271,  271,  271,
-      271,  272,  272,  272,  272,  273,  273,  273,  273,  274,
-      274,  274,  274,  275,  275,  275,  275,  276,  276,  276,
-      276,  278,  208,  207,  278,  279,  279,  206,  279,  280,
-
-      280,  204,  280,  281,  281,  203,  281,  282,  282,  201,
-      282,  283,  283,  200,  283,  198,  197,  196,  195,  192,
-      191,  190,  188,  187,  186,  184,  181,  179,  177,  176,
-      175,  174,  172,  171,  170,  169,  166,  165,  162,  161,
-      160,  159,  158,  156,  155,  154,  149,  148,  144,  143,
-      142,  141,  140,  139,  138,  137,  136,  135,  134,  130,
-      124,  122,  121,  120,  119,  115,  114,  113,  110,  109,
-      108,  107,  106,   80,   79,   78,   74,   73,   72,   71,
-       70,   69,   64,   43,   42,   41,   38,   37,   36,   34,
-       31,   28,   27,   26,   20,   15,    3,  270,  270,  270,
-
-      270,  270,  270,  270,  270,  270,  270,  270,  270,  270,
-      270,  270,  270,  270,  270,  270,  270,  270,  270,  270,
-      270,  270,  270,  270,  270,  270,  270,  270,  270,  270,
-      270,  270,  270,  270,  270,  270,  270,  270,  270,  270,
-      270,  270,  270,  270,  270,  270,  270,  270,  270
+        4,    5,    5,    2,    5,    6,    6,    8,    6,    9,
+       10,  108,    2,   25,  108,  208,  208,    9,   10,    7,
+       25,   11,   12,    4,   11,   12,    5,   11,   12,   13,
+        6,    8,   11,   12,   45,   14,   21,   13,  283,   21,
+
+        2,   45,    4,   14,   58,   11,   12,   37,   32,   32,
+       37,   32,   21,   32,   33,   33,   55,   33,   59,   33,
+       32,   49,   49,   37,   49,   58,   33,   52,   52,   55,
+       52,   60,   61,   61,   60,   61,   59,   64,   68,   68,
+       85,   68,  275,   76,   76,   86,   76,   60,   76,   94,
+       64,   79,   79,   79,  271,   76,   84,   84,   84,   85,
+       88,   88,   86,   88,   90,   90,   86,   90,   93,   93,
+       94,   93,   79,   96,   96,   97,   96,   84,   98,   98,
+      200,   98,  101,  101,  200,  101,  102,  102,  124,  102,
+      151,  105,  105,   97,  105,  107,  107,  151,  107,  116,
+
+      116,  116,  120,  129,  129,  120,  129,  123,  123,  123,
+      266,  124,  131,  131,  134,  131,  131,  134,  152,  264,
+      116,  122,  122,  122,  122,  262,  122,  122,  123,  260,
+      124,  132,  132,  122,  132,  259,  152,  131,  132,  258,
+      133,  133,  122,  133,  135,  135,  170,  135,  153,  153,
+      153,  169,  169,  169,  225,  225,  132,  179,  179,  179,
+      256,  186,  186,  170,  186,  189,  254,  170,  250,  153,
+      238,  238,  169,  188,  188,  188,  252,  252,  179,  191,
+      191,  191,  249,  189,  199,  199,  199,  205,  205,  205,
+      211,  211,  211,  248,  188,  219,  219,  219,  255,  255,
+
+      191,  224,  224,  224,  246,  199,  267,  267,  205,  269,
+      269,  211,  235,  235,  235,  245,  219,  239,  239,  239,
+      244,  243,  224,  247,  247,  247,  251,  251,  251,  261,
+      261,  261,  242,  235,  263,  263,  263,  241,  239,  265,
+      265,  265,  240,  237,  247,  236,  234,  251,  233,  232,
+      261,  268,  268,  268,  230,  263,  273,  273,  273,  229,
+      265,  274,  274,  274,  228,  227,  223,  222,  221,  220,
+      218,  217,  268,  216,  215,  214,  213,  273,  212,  210,
+      209,  207,  274,  277,  277,  277,  277,  278,  278,  278,
+      278,  279,  279,  279,  279,  280,  280,  280,  280,  281,
+
+      281,  281,  281,  282,  282,  282,  282,  284,  206,  204,
+      284,  285,  285,  203,  285,  286,  286,  202,  286,  287,
+      287,  287,  287,  288,  288,  201,  288,  289,  289,  198,
+      289,  290,  290,  197,  290,  196,  194,  193,  192,  190,
+      187,  185,  183,  182,  181,  180,  178,  177,  176,  175,
+      172,  171,  168,  167,  166,  165,  164,  162,  161,  160,
+      155,  154,  150,  149,  148,  147,  146,  145,  144,  143,
+      142,  141,  140,  136,  130,  128,  127,  126,  125,  121,
+      119,  118,  117,  115,  113,  112,  111,  110,  109,   83,
+       82,   81,   80,   78,   75,   74,   73,   72,   71,   70,
+
+       65,   44,   43,   42,   39,   38,   36,   34,   31,   28,
+       27,   26,   20,   15,    3,  276,  276,  276,  276,  276,
+      276,  276,  276,  276,  276,  276,  276,  276,  276,  276,
+      276,  276,  276,  276,  276,  276,  276,  276,  276,  276,
+      276,  276,  276,  276,  276,  276,  276,  276,  276,  276,
+      276,  276,  276,  276,  276,  276,  276,  276,  276,  276,
+      276,  276,  276,  276,  276,  276,  276
     } ;
 
 /* Table of booleans, true if rule could match eol. */
@@ -966,13 +971,13 @@ yy_match:
 			while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 				{
 				yy_current_state = (int) yy_def[yy_current_state];
-				if ( yy_current_state >= 271 )
+				if ( yy_current_state >= 277 )
 					yy_c = yy_meta[yy_c];
 				}
 			yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
 			++yy_cp;
 			}
-		while ( yy_current_state != 270 );
+		while ( yy_current_state != 276 );
 		yy_cp = (yy_last_accepting_cpos);
 		yy_current_state = (yy_last_accepting_state);
 
@@ -1525,7 +1530,7 @@ static int yy_get_next_buffer (void)
 		while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 			{
 			yy_current_state = (int) yy_def[yy_current_state];
-			if ( yy_current_state >= 271 )
+			if ( yy_current_state >= 277 )
 				yy_c = yy_meta[yy_c];
 			}
 		yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
@@ -1553,11 +1558,11 @@ static int yy_get_next_buffer (void)
 	while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 		{
 		yy_current_state = (int) yy_def[yy_current_state];
-		if ( yy_current_state >= 271 )
+		if ( yy_current_state >= 277 )
 			yy_c = yy_meta[yy_c];
 		}
 	yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
-	yy_is_jam = (yy_current_state == 270);
+	yy_is_jam = (yy_current_state == 276);
 
 		return yy_is_jam ? 0 : yy_current_state;
 }
-- 
2.43.0


From c8390774daeb16239d773882a44c419bc09fb88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:59 +0000
Subject: [PATCH 06/56] fix: an empty %option line must not consume the next
 line

---
 src/lex.l    | 2 +-
 src/lex.yy.c | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lex.l b/src/lex.l
index 0f36c3e..dafb0f5 100644
--- a/src/lex.l
+++ b/src/lex.l
@@ -48,7 +48,7 @@ ast_begin           ^({bom})?({col})?"TranslationUnitDecl"({col})?({col})?" 0x".
 funcvar             ^({col})?[|`]"-"({col})?({col})?("Function"|"Var")"Decl"({col})?({col})?" 0x".*
 parmvar             ^({col})?[| ]" "[|`]"-"({col})?({col})?"ParmVarDecl"({col})?({col})?" 0x".*
 
-option              ^({bom})?"%option"[[:space:]]
+option              ^({bom})?"%option"/[[:space:]]
 optstr              [^[:space:]]+
 
 c_comment           "/*"([^*]|"*"+[^*/])*"*"+"/"
diff --git a/src/lex.yy.c b/src/lex.yy.c
index 057b413..6ebf738 100644
--- a/src/lex.yy.c
+++ b/src/lex.yy.c
@@ -1030,6 +1030,10 @@ YY_RULE_SETUP
 	YY_BREAK
 case 6:
 /* rule 6 can match eol */
+*yy_cp = (yy_hold_char); /* undo effects of setting up yytext */
+YY_LINENO_REWIND_TO(yy_cp - 1);
+(yy_c_buf_p) = yy_cp -= 1;
+YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
 { BEGIN(OPTION); /* %option line */ }
 	YY_BREAK
-- 
2.43.0


From 0f38856220c4331f648c479b12cf1763b8f1d437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:53 +0000
Subject: [PATCH 07/56] fix: ignore negative numbers, bitfields, strings, etc.
 inside of struct, union, enum and typedef blocks

---
 src/lex.h        |   3 +-
 src/lex.l        |   3 +-
 src/lex.yy.c     | 466 ++++++++++++++++++++++++-----------------------
 src/tokenize.cpp |   4 +
 4 files changed, 251 insertions(+), 225 deletions(-)

diff --git a/src/lex.h b/src/lex.h
index ef42a73..7e1a215 100644
--- a/src/lex.h
+++ b/src/lex.h
@@ -22,7 +22,8 @@ enum {
     LEX_CURLY_OPEN,
     LEX_CURLY_CLOSE,
     LEX_EQUAL,
-    LEX_SEMICOLON
+    LEX_SEMICOLON,
+    LEX_ILLEGAL
 };
 
 extern const char *lex_errmsg;
diff --git a/src/lex.l b/src/lex.l
index dafb0f5..1599ff5 100644
--- a/src/lex.l
+++ b/src/lex.l
@@ -128,7 +128,8 @@ other               [*,()\[\]]
 "="                         { return LEX_EQUAL; }
 ";"                         { return LEX_SEMICOLON; }
 
-.                           { set_illegal_char(); return LEX_ERROR; }
+{literal}                   { set_illegal_char(); return LEX_ILLEGAL; }
+.                           { set_illegal_char(); return LEX_ILLEGAL; }
 
 %%
 
diff --git a/src/lex.yy.c b/src/lex.yy.c
index 6ebf738..8ce652c 100644
--- a/src/lex.yy.c
+++ b/src/lex.yy.c
@@ -371,8 +371,8 @@ static void yynoreturn yy_fatal_error ( const char* msg  );
 	(yy_hold_char) = *yy_cp; \
 	*yy_cp = '\0'; \
 	(yy_c_buf_p) = yy_cp;
-#define YY_NUM_RULES 50
-#define YY_END_OF_BUFFER 51
+#define YY_NUM_RULES 51
+#define YY_END_OF_BUFFER 52
 /* This struct is not used in this scanner,
    but its presence is necessary. */
 struct yy_trans_info
@@ -380,38 +380,39 @@ struct yy_trans_info
 	flex_int32_t yy_verify;
 	flex_int32_t yy_nxt;
 	};
-static const flex_int16_t yy_accept[277] =
+static const flex_int16_t yy_accept[286] =
     {   0,
         0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
-        0,    0,    0,    0,   51,   49,   36,   36,   43,   49,
-       49,   42,   48,   47,   42,   42,   42,   42,   45,   46,
-       49,   36,   36,   49,   22,   49,   49,   42,   49,    5,
-        4,    5,    5,    5,    5,    8,   10,    9,    8,   15,
-       14,   15,   21,   20,   21,   30,   29,   30,   30,   30,
-       30,   34,   33,   34,    0,   16,   11,    0,   42,   42,
-       42,   42,   42,   42,    0,    0,   22,    0,    0,    0,
-       16,   42,    0,    0,    0,    0,    8,    0,    7,    0,
-       13,   18,    0,    0,   27,    0,    0,    0,   23,   25,
-
-        0,    0,   28,   31,    0,   44,    0,    0,   42,   42,
-       42,   42,   42,   35,    0,    0,    0,    0,    0,    0,
-       42,   35,    0,    0,    0,    0,    0,    0,    0,    0,
-        0,    0,    0,    0,    0,    0,   17,   12,   40,   42,
-       42,   42,   42,    0,    0,   42,    0,    0,    0,    0,
-        0,    0,    0,    0,    0,   19,   24,   26,   32,   42,
-       42,   42,   39,    0,    0,   42,    0,    0,    0,    0,
-        0,    0,   37,   38,   42,    0,    0,   42,    0,    0,
-        0,    0,    0,   41,    0,    0,   42,    0,    0,    0,
-        0,    0,    0,    0,    6,   42,    0,    0,    0,    0,
-
-        0,    0,    0,   42,    0,    0,    0,    0,    0,   42,
-        0,    0,    0,    0,    0,    0,   42,    0,    0,    0,
-        0,   42,    0,    0,    0,    2,    0,   42,    0,    0,
-        2,    0,   42,    0,    0,    0,   42,    0,    0,    0,
-        0,   42,    0,    0,    0,   42,    0,    0,    0,   42,
-        0,    0,    3,    0,   42,    0,    3,    0,    0,    0,
-        0,    0,    0,    0,    0,    0,    0,    0,    0,    1,
-        0,    1,    0,    0,    0,    0
+        0,    0,    0,    0,   52,   50,   36,   36,   50,   50,
+       43,   50,   50,   42,   48,   47,   42,   42,   42,   42,
+       45,   46,   50,   36,   36,   50,   22,   50,   50,   42,
+       50,    5,    4,    5,    5,    5,    5,    8,   10,    9,
+        8,   15,   14,   15,   21,   20,   21,   30,   29,   30,
+       30,   30,   30,   34,   33,   34,    0,   49,    0,    0,
+        0,    0,   16,   11,    0,   42,   42,   42,   42,   42,
+       42,    0,    0,   22,    0,    0,    0,   16,   42,    0,
+        0,    0,    0,    8,    0,    7,    0,   13,   18,    0,
+
+        0,   27,    0,    0,    0,   23,   25,    0,    0,   28,
+       31,    0,    0,    0,   44,    0,    0,   42,   42,   42,
+       42,   42,   35,    0,    0,    0,    0,    0,    0,   42,
+       35,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,    0,   17,   12,   40,   42,   42,
+       42,   42,    0,    0,   42,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,   19,   24,   26,   32,   42,   42,
+       42,   39,    0,    0,   42,    0,    0,    0,    0,    0,
+        0,   37,   38,   42,    0,    0,   42,    0,    0,    0,
+        0,    0,   41,    0,    0,   42,    0,    0,    0,    0,
+
+        0,    0,    0,    6,   42,    0,    0,    0,    0,    0,
+        0,    0,   42,    0,    0,    0,    0,    0,   42,    0,
+        0,    0,    0,    0,    0,   42,    0,    0,    0,    0,
+       42,    0,    0,    0,    2,    0,   42,    0,    0,    2,
+        0,   42,    0,    0,    0,   42,    0,    0,    0,    0,
+       42,    0,    0,    0,   42,    0,    0,    0,   42,    0,
+        0,    3,    0,   42,    0,    3,    0,    0,    0,    0,
+        0,    0,    0,    0,    0,    0,    0,    0,    1,    0,
+        1,    0,    0,    0,    0
     } ;
 
 static const YY_CHAR yy_ec[256] =
@@ -456,143 +457,153 @@ static const YY_CHAR yy_meta[52] =
         1
     } ;
 
-static const flex_int16_t yy_base[291] =
+static const flex_int16_t yy_base[302] =
     {   0,
-        0,   50,  512,   56,   60,   64,   53,   65,   67,   68,
-       79,   80,   87,   93,  514,  516,  516,  516,  516,  500,
-       86,    0,  516,  516,   37,  470,  466,  473,  516,  516,
-      460,  107,  113,  482,  516,  469,   97,  466,  456,  516,
-      516,  478,  498,  490,   90,    0,  516,  516,  120,  516,
-      516,  126,  516,  516,  103,  516,  516,   99,  110,  121,
-      131,  516,  516,  124,  488,  516,  516,  137,    0,  457,
-      457,  458,  458,  462,  445,  142,  516,  483,  137,  454,
-      481,  462,  440,  142,  113,  142,    0,  159,  516,  163,
-      516,  516,  167,  144,  516,  172,  167,  177,  516,  516,
-
-      181,  185,  516,  516,  190,  516,  194,   61,  453,  456,
-      444,  454,  447,  516,  473,  185,  460,  440,  470,  192,
-      443,  220,  193,  184,  467,  452,  434,  447,  202,  461,
-      211,  230,  239,  204,  243,  460,  516,  516,    0,  433,
-      442,  440,  433,  429,  434,  426,  440,  427,  459,  451,
-      186,  215,  234,  425,  421,  516,  516,  516,  516,  423,
-      417,  426,    0,  428,  418,  420,  428,  424,  237,  243,
-      422,  431,    0,    0,  417,  412,  411,  418,  243,  406,
-      419,  402,  411,    0,  401,  260,  399,  259,  262,  404,
-      265,  405,  408,  402,  516,  402,  408,  405,  270,  160,
-
-      388,  383,  385,  372,  273,  380,  345,   72,  339,  343,
-      276,  357,  337,  350,  360,  340,  348,  351,  281,  326,
-      331,  331,  335,  287,  251,    0,  329,  331,  330,  329,
-        0,  326,  307,  312,  298,  309,  324,  267,  303,  338,
-      304,  301,  296,  306,  274,  275,  309,  250,  263,  234,
-      312,  273,    0,  235,  295,  235,    0,  210,  210,  215,
-      315,  191,  320,  176,  325,  206,  303,  337,  306,    0,
-      129,    0,  342,  347,  138,  516,  383,  387,  391,  395,
-      399,  403,   95,  407,  411,  415,  419,  423,  427,  431
+        0,   50,  542,   56,   60,   64,   53,   65,   67,   68,
+       79,   80,   87,   93,  544,  546,  546,  546,   68,   72,
+      546,  530,   86,    0,  546,  546,   65,  500,  496,  503,
+      546,  546,  490,  109,  115,  512,  546,  499,   94,  496,
+      486,  546,  546,  508,  528,  520,  114,    0,  546,  546,
+      122,  546,  546,  128,  546,  546,  101,  546,  546,  126,
+      125,  124,  134,  546,  546,  127,  134,  546,  140,  135,
+      144,  518,  546,  546,  153,    0,  487,  487,  488,  488,
+      492,  475,  161,  546,  513,  154,  484,  511,  492,  470,
+      157,  120,  155,    0,  176,  546,  180,  546,  546,  184,
+
+      171,  546,  189,  175,  194,  546,  546,  198,  202,  546,
+      546,  206,  210,  215,  546,  220,   61,  483,  486,  474,
+      484,  477,  546,  503,  211,  490,  470,  500,  146,  473,
+      246,  216,  216,  497,  482,  464,  477,  233,  491,  253,
+      259,  238,  256,  269,  490,  546,  546,    0,  463,  472,
+      470,  463,  459,  464,  456,  470,  457,  489,  481,  183,
+      235,  260,  455,  451,  546,  546,  546,  546,  453,  447,
+      456,    0,  458,  448,  450,  458,  454,  266,  269,  452,
+      461,    0,    0,  447,  442,  441,  448,  272,  436,  449,
+      432,  441,    0,  431,  290,  429,  282,  262,  434,  288,
+
+      435,  438,  432,  546,  431,  435,  432,  294,  185,  411,
+      410,  412,  402,  297,  408,  396,   72,  363,  367,  300,
+      381,  361,  374,  384,  364,  373,  375,  304,  350,  355,
+      355,  359,  310,  225,    0,  353,  355,  358,  353,    0,
+      354,  331,  337,  322,  333,  349,  241,  326,  362,  332,
+      325,  330,  330,  302,  305,  332,  290,  312,  296,  335,
+      274,    0,  297,  296,  302,    0,  261,  259,  250,  338,
+      199,  344,  175,  348,  209,  302,  360,  318,    0,  139,
+        0,  366,  370,  145,  546,  406,  410,  414,  418,  422,
+      426,  430,  434,  106,  438,  442,  446,  450,  454,  458,
+
+      462
     } ;
 
-static const flex_int16_t yy_def[291] =
+static const flex_int16_t yy_def[302] =
     {   0,
-      276,    1,  277,  277,  278,  278,  279,  279,  280,  280,
-      281,  281,  282,  282,  276,  276,  276,  276,  276,  276,
-      276,  283,  276,  276,  283,  283,  283,  283,  276,  276,
-      276,  276,  276,  276,  276,  276,  276,  283,  276,  276,
-      276,  276,  276,  276,  276,  284,  276,  276,  284,  276,
-      276,  276,  276,  276,  276,  276,  276,  285,  286,  276,
-      276,  276,  276,  276,  276,  276,  276,  276,  283,  283,
-      283,  283,  283,  283,  276,  276,  276,  276,  276,  276,
-      287,  283,  276,  276,  276,  276,  284,  276,  276,  276,
-      276,  276,  276,  285,  276,  285,  286,  286,  276,  276,
-
-      276,  276,  276,  276,  276,  276,  276,  276,  283,  283,
-      283,  283,  283,  276,  287,  276,  276,  276,  287,  287,
-      283,  276,  276,  276,  276,  276,  276,  276,  276,  276,
-      285,  286,  276,  276,  276,  276,  276,  276,  283,  283,
-      283,  283,  283,  276,  276,  283,  276,  276,  276,  276,
-      276,  276,  276,  276,  276,  276,  276,  276,  276,  283,
-      283,  283,  283,  276,  276,  283,  276,  276,  276,  276,
-      276,  276,  283,  283,  283,  276,  276,  283,  276,  276,
-      276,  276,  276,  283,  276,  276,  283,  276,  276,  276,
-      276,  276,  276,  276,  276,  283,  276,  276,  276,  276,
-
-      276,  276,  276,  283,  276,  276,  276,  276,  276,  283,
-      276,  276,  276,  276,  276,  276,  283,  276,  276,  276,
-      276,  283,  276,  276,  276,  288,  276,  283,  276,  276,
-      288,  276,  283,  276,  276,  276,  283,  276,  276,  276,
-      276,  283,  276,  276,  276,  283,  276,  276,  276,  283,
-      276,  276,  289,  276,  283,  276,  289,  276,  276,  276,
-      276,  276,  276,  276,  276,  276,  276,  276,  276,  290,
-      276,  290,  276,  276,  276,    0,  276,  276,  276,  276,
-      276,  276,  276,  276,  276,  276,  276,  276,  276,  276
+      285,    1,  286,  286,  287,  287,  288,  288,  289,  289,
+      290,  290,  291,  291,  285,  285,  285,  285,  292,  293,
+      285,  285,  285,  294,  285,  285,  294,  294,  294,  294,
+      285,  285,  285,  285,  285,  285,  285,  285,  285,  294,
+      285,  285,  285,  285,  285,  285,  285,  295,  285,  285,
+      295,  285,  285,  285,  285,  285,  285,  285,  285,  296,
+      297,  285,  285,  285,  285,  285,  292,  285,  292,  293,
+      293,  285,  285,  285,  285,  294,  294,  294,  294,  294,
+      294,  285,  285,  285,  285,  285,  285,  298,  294,  285,
+      285,  285,  285,  295,  285,  285,  285,  285,  285,  285,
+
+      296,  285,  296,  297,  297,  285,  285,  285,  285,  285,
+      285,  285,  292,  293,  285,  285,  285,  294,  294,  294,
+      294,  294,  285,  298,  285,  285,  285,  298,  298,  294,
+      285,  285,  285,  285,  285,  285,  285,  285,  285,  296,
+      297,  285,  285,  285,  285,  285,  285,  294,  294,  294,
+      294,  294,  285,  285,  294,  285,  285,  285,  285,  285,
+      285,  285,  285,  285,  285,  285,  285,  285,  294,  294,
+      294,  294,  285,  285,  294,  285,  285,  285,  285,  285,
+      285,  294,  294,  294,  285,  285,  294,  285,  285,  285,
+      285,  285,  294,  285,  285,  294,  285,  285,  285,  285,
+
+      285,  285,  285,  285,  294,  285,  285,  285,  285,  285,
+      285,  285,  294,  285,  285,  285,  285,  285,  294,  285,
+      285,  285,  285,  285,  285,  294,  285,  285,  285,  285,
+      294,  285,  285,  285,  299,  285,  294,  285,  285,  299,
+      285,  294,  285,  285,  285,  294,  285,  285,  285,  285,
+      294,  285,  285,  285,  294,  285,  285,  285,  294,  285,
+      285,  300,  285,  294,  285,  300,  285,  285,  285,  285,
+      285,  285,  285,  285,  285,  285,  285,  285,  301,  285,
+      301,  285,  285,  285,    0,  285,  285,  285,  285,  285,
+      285,  285,  285,  285,  285,  285,  285,  285,  285,  285,
+
+      285
     } ;
 
-static const flex_int16_t yy_nxt[568] =
+static const flex_int16_t yy_nxt[598] =
     {   0,
-       16,   17,   18,   16,   17,   16,   16,   16,   16,   19,
-       19,   16,   20,   21,   22,   22,   23,   24,   22,   22,
-       22,   22,   22,   22,   22,   19,   16,   16,   22,   22,
-       22,   25,   22,   22,   22,   22,   22,   22,   22,   22,
-       26,   27,   28,   22,   22,   29,   16,   30,   16,   16,
-       31,   32,   33,   34,   32,   51,   35,   36,   41,   42,
-       43,   47,   48,   37,   47,   47,   48,   51,   47,   54,
-       54,  137,   38,   70,  138,  214,  215,   55,   55,   52,
-       71,   57,   57,   44,   58,   58,   49,   59,   59,   63,
-       49,   52,   60,   60,   85,   63,   66,   64,   69,   67,
-
-       39,   86,   45,   64,   95,   61,   61,   81,   76,   76,
-       67,   76,   68,   77,   76,   76,   92,   76,   95,   77,
-       78,   88,   89,   68,   88,   96,   78,   90,   91,   93,
-       90,   99,  102,  103,  100,  102,   98,  104,  107,  108,
-      125,  107,  260,   76,   76,  126,   76,  101,   77,   95,
-      105,  116,  116,  116,  273,   78,  123,  123,  123,  125,
-       88,   89,  127,   88,   90,   91,  128,   90,  129,  130,
-       96,  129,  117,  131,   94,   95,  131,  124,  132,   97,
-      127,  132,  133,  134,  128,  133,  102,  103,  149,  102,
-       85,  135,  136,   98,  135,  107,  108,   86,  107,  116,
-
-      116,  116,  120,  129,  130,   76,  129,  123,  123,  123,
-      244,  150,  131,   94,  157,  131,   95,  158,  167,  270,
-      117,   76,   76,  147,   76,  267,   77,  148,  124,  264,
-      151,  132,   97,   78,  132,  263,  168,   96,   95,  262,
-      133,  134,  144,  133,  135,  136,  181,  135,  169,  169,
-      169,  169,  169,  169,  230,  215,   98,  188,  188,  188,
-      261,  195,  195,  127,  195,  197,  258,  128,  255,  170,
-      243,  244,  170,  188,  188,  188,  256,  244,  189,  199,
-      199,  199,  254,  168,  199,  199,  199,  211,  211,  211,
-      211,  211,  211,  253,  189,  224,  224,  224,  259,  260,
-
-      200,  224,  224,  224,  250,  200,  259,  260,  212,  271,
-      260,  212,  239,  239,  239,  249,  225,  239,  239,  239,
-      248,  247,  225,  251,  251,  251,  251,  251,  251,  265,
-      265,  265,  246,  240,  268,  268,  268,  245,  240,  265,
-      265,  265,  215,  242,  252,  241,  238,  252,  237,  236,
-      266,  268,  268,  268,  235,  269,  274,  274,  274,  234,
-      266,  274,  274,  274,  233,  232,  229,  228,  227,  226,
-      223,  222,  269,  221,  220,  219,  218,  275,  168,  217,
-      216,  172,  275,   40,   40,   40,   40,   46,   46,   46,
-       46,   50,   50,   50,   50,   53,   53,   53,   53,   56,
-
-       56,   56,   56,   62,   62,   62,   62,   87,  213,  210,
-       87,   94,   94,  209,   94,   97,   97,  208,   97,  119,
-      119,  119,  119,  231,  231,  207,  231,  257,  257,  206,
-      257,  272,  272,  205,  272,  204,  203,  202,  201,  198,
-      196,  194,  193,  192,  191,  190,  187,  186,  185,  184,
-      183,  182,  180,  179,  178,  177,  176,  175,  174,  173,
-      172,  171,   86,   85,   80,   79,  166,  165,  164,  163,
-      162,  161,  160,  159,  156,  155,  154,  153,  152,  146,
-      120,  145,  144,  120,  143,  142,  141,  140,  139,  122,
-      121,  120,  118,  115,  114,  113,  112,  111,  110,  109,
-
-      106,   86,   85,   84,   83,   82,   80,   79,   75,   74,
-       73,   72,   65,  276,   41,   15,  276,  276,  276,  276,
-      276,  276,  276,  276,  276,  276,  276,  276,  276,  276,
-      276,  276,  276,  276,  276,  276,  276,  276,  276,  276,
-      276,  276,  276,  276,  276,  276,  276,  276,  276,  276,
-      276,  276,  276,  276,  276,  276,  276,  276,  276,  276,
-      276,  276,  276,  276,  276,  276,  276
+       16,   17,   18,   16,   17,   19,   16,   16,   20,   21,
+       21,   16,   22,   23,   24,   24,   25,   26,   24,   24,
+       24,   24,   24,   24,   24,   21,   16,   16,   24,   24,
+       24,   27,   24,   24,   24,   24,   24,   24,   24,   24,
+       28,   29,   30,   24,   24,   31,   16,   32,   16,   16,
+       33,   34,   35,   36,   34,   53,   37,   38,   43,   44,
+       45,   49,   50,   39,   49,   49,   50,   53,   49,   56,
+       56,  146,   40,   68,  147,  223,  224,   57,   57,   54,
+       68,   59,   59,   46,   60,   60,   51,   61,   61,   65,
+       51,   54,   62,   62,   69,   65,   73,   66,   71,   74,
+
+       41,   77,   47,   66,   88,   63,   63,   74,   78,   76,
+       83,   83,   75,   83,   99,   84,   83,   83,   92,   83,
+       75,   84,   85,   95,   96,   93,   95,  100,   85,   97,
+       98,  102,   97,  102,  106,  109,  110,  107,  109,   68,
+      111,  113,   67,   68,  113,  114,   70,  134,  114,  269,
+      108,  105,  103,  112,  116,  117,  129,  116,  135,   83,
+       69,   71,   83,   83,  282,   83,  134,   84,  125,  125,
+      125,  132,  132,  132,   85,  136,  102,   95,   96,  137,
+       95,   97,   98,  102,   97,  138,  139,   92,  138,  126,
+      140,  101,  133,  140,   93,  141,  104,  103,  141,  142,
+
+      143,  105,  142,  109,  110,  136,  109,  144,  145,  137,
+      144,  113,   67,  253,  113,   68,  114,   70,  279,  114,
+      158,  116,  117,   68,  116,  125,  125,  125,  239,  224,
+      132,  132,  132,  276,  138,  139,   69,  138,  176,  142,
+      143,   71,  142,  159,  252,  253,  126,   83,   83,  156,
+       83,  133,   84,  157,  140,  101,  177,  140,  102,   85,
+      141,  104,  160,  141,  273,  206,  166,  102,  153,  167,
+      144,  145,  190,  144,  178,  178,  178,  265,  253,  103,
+      178,  178,  178,  177,  272,  105,  197,  197,  197,  136,
+      271,  204,  204,  137,  204,  179,  197,  197,  197,  268,
+
+      269,  179,  208,  208,  208,  268,  269,  198,  208,  208,
+      208,  220,  220,  220,  220,  220,  220,  198,  233,  233,
+      233,  280,  269,  209,  233,  233,  233,  270,  267,  209,
+      264,  263,  221,  262,  259,  221,  248,  248,  248,  234,
+      248,  248,  248,  258,  257,  234,  260,  260,  260,  260,
+      260,  260,  274,  274,  274,  256,  255,  249,  277,  277,
+      277,  249,  274,  274,  274,  254,  224,  261,  251,  250,
+      261,  247,  246,  275,  277,  277,  277,  245,  244,  278,
+      283,  283,  283,  275,  283,  283,  283,  243,  242,  241,
+      238,  237,  236,  235,  232,  278,  231,  230,  229,  228,
+
+      227,  284,  177,  226,  225,  284,   42,   42,   42,   42,
+       48,   48,   48,   48,   52,   52,   52,   52,   55,   55,
+       55,   55,   58,   58,   58,   58,   64,   64,   64,   64,
+       67,   67,  181,   67,   70,   70,  222,   70,   94,  219,
+      218,   94,  101,  101,  217,  101,  104,  104,  216,  104,
+      128,  128,  128,  128,  240,  240,  215,  240,  266,  266,
+      214,  266,  281,  281,  213,  281,  212,  211,  210,  207,
+      205,  203,  202,  201,  200,  199,  196,  195,  194,  193,
+      192,  191,  189,  188,  187,  186,  185,  184,  183,  182,
+      181,  180,   93,   92,   87,   86,  175,  174,  173,  172,
+
+      171,  170,  169,  168,  165,  164,  163,  162,  161,  155,
+      129,  154,  153,  129,  152,  151,  150,  149,  148,  131,
+      130,  129,  127,  124,  123,  122,  121,  120,  119,  118,
+      115,   93,   92,   91,   90,   89,   87,   86,   82,   81,
+       80,   79,   72,  285,   43,   15,  285,  285,  285,  285,
+      285,  285,  285,  285,  285,  285,  285,  285,  285,  285,
+      285,  285,  285,  285,  285,  285,  285,  285,  285,  285,
+      285,  285,  285,  285,  285,  285,  285,  285,  285,  285,
+      285,  285,  285,  285,  285,  285,  285,  285,  285,  285,
+      285,  285,  285,  285,  285,  285,  285
+
     } ;
 
-static const flex_int16_t yy_chk[568] =
+static const flex_int16_t yy_chk[598] =
     {   0,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
@@ -601,69 +612,73 @@ static const flex_int16_t yy_chk[568] =
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    2,    2,    2,    2,    7,    2,    2,    4,    4,
         4,    5,    5,    2,    5,    6,    6,    8,    6,    9,
-       10,  108,    2,   25,  108,  208,  208,    9,   10,    7,
-       25,   11,   12,    4,   11,   12,    5,   11,   12,   13,
-        6,    8,   11,   12,   45,   14,   21,   13,  283,   21,
-
-        2,   45,    4,   14,   58,   11,   12,   37,   32,   32,
-       37,   32,   21,   32,   33,   33,   55,   33,   59,   33,
-       32,   49,   49,   37,   49,   58,   33,   52,   52,   55,
-       52,   60,   61,   61,   60,   61,   59,   64,   68,   68,
-       85,   68,  275,   76,   76,   86,   76,   60,   76,   94,
-       64,   79,   79,   79,  271,   76,   84,   84,   84,   85,
-       88,   88,   86,   88,   90,   90,   86,   90,   93,   93,
-       94,   93,   79,   96,   96,   97,   96,   84,   98,   98,
-      200,   98,  101,  101,  200,  101,  102,  102,  124,  102,
-      151,  105,  105,   97,  105,  107,  107,  151,  107,  116,
-
-      116,  116,  120,  129,  129,  120,  129,  123,  123,  123,
-      266,  124,  131,  131,  134,  131,  131,  134,  152,  264,
-      116,  122,  122,  122,  122,  262,  122,  122,  123,  260,
-      124,  132,  132,  122,  132,  259,  152,  131,  132,  258,
-      133,  133,  122,  133,  135,  135,  170,  135,  153,  153,
-      153,  169,  169,  169,  225,  225,  132,  179,  179,  179,
-      256,  186,  186,  170,  186,  189,  254,  170,  250,  153,
-      238,  238,  169,  188,  188,  188,  252,  252,  179,  191,
-      191,  191,  249,  189,  199,  199,  199,  205,  205,  205,
-      211,  211,  211,  248,  188,  219,  219,  219,  255,  255,
-
-      191,  224,  224,  224,  246,  199,  267,  267,  205,  269,
-      269,  211,  235,  235,  235,  245,  219,  239,  239,  239,
-      244,  243,  224,  247,  247,  247,  251,  251,  251,  261,
-      261,  261,  242,  235,  263,  263,  263,  241,  239,  265,
-      265,  265,  240,  237,  247,  236,  234,  251,  233,  232,
-      261,  268,  268,  268,  230,  263,  273,  273,  273,  229,
-      265,  274,  274,  274,  228,  227,  223,  222,  221,  220,
-      218,  217,  268,  216,  215,  214,  213,  273,  212,  210,
-      209,  207,  274,  277,  277,  277,  277,  278,  278,  278,
-      278,  279,  279,  279,  279,  280,  280,  280,  280,  281,
-
-      281,  281,  281,  282,  282,  282,  282,  284,  206,  204,
-      284,  285,  285,  203,  285,  286,  286,  202,  286,  287,
-      287,  287,  287,  288,  288,  201,  288,  289,  289,  198,
-      289,  290,  290,  197,  290,  196,  194,  193,  192,  190,
-      187,  185,  183,  182,  181,  180,  178,  177,  176,  175,
-      172,  171,  168,  167,  166,  165,  164,  162,  161,  160,
-      155,  154,  150,  149,  148,  147,  146,  145,  144,  143,
-      142,  141,  140,  136,  130,  128,  127,  126,  125,  121,
-      119,  118,  117,  115,  113,  112,  111,  110,  109,   83,
-       82,   81,   80,   78,   75,   74,   73,   72,   71,   70,
-
-       65,   44,   43,   42,   39,   38,   36,   34,   31,   28,
-       27,   26,   20,   15,    3,  276,  276,  276,  276,  276,
-      276,  276,  276,  276,  276,  276,  276,  276,  276,  276,
-      276,  276,  276,  276,  276,  276,  276,  276,  276,  276,
-      276,  276,  276,  276,  276,  276,  276,  276,  276,  276,
-      276,  276,  276,  276,  276,  276,  276,  276,  276,  276,
-      276,  276,  276,  276,  276,  276,  276
+       10,  117,    2,   19,  117,  217,  217,    9,   10,    7,
+       20,   11,   12,    4,   11,   12,    5,   11,   12,   13,
+        6,    8,   11,   12,   19,   14,   23,   13,   20,   23,
+
+        2,   27,    4,   14,   39,   11,   12,   39,   27,  294,
+       34,   34,   23,   34,   57,   34,   35,   35,   47,   35,
+       39,   35,   34,   51,   51,   47,   51,   57,   35,   54,
+       54,   60,   54,   61,   62,   63,   63,   62,   63,   67,
+       66,   69,   69,   70,   69,   71,   71,   92,   71,  284,
+       62,   61,   60,   66,   75,   75,  129,   75,   93,  129,
+       67,   70,   83,   83,  280,   83,   92,   83,   86,   86,
+       86,   91,   91,   91,   83,   93,  101,   95,   95,   93,
+       95,   97,   97,  104,   97,  100,  100,  160,  100,   86,
+      103,  103,   91,  103,  160,  105,  105,  101,  105,  108,
+
+      108,  104,  108,  109,  109,  209,  109,  112,  112,  209,
+      112,  113,  113,  275,  113,  113,  114,  114,  273,  114,
+      133,  116,  116,  114,  116,  125,  125,  125,  234,  234,
+      132,  132,  132,  271,  138,  138,  113,  138,  161,  142,
+      142,  114,  142,  133,  247,  247,  125,  131,  131,  131,
+      131,  132,  131,  131,  140,  140,  161,  140,  140,  131,
+      141,  141,  133,  141,  269,  198,  143,  141,  131,  143,
+      144,  144,  179,  144,  162,  162,  162,  261,  261,  140,
+      178,  178,  178,  198,  268,  141,  188,  188,  188,  179,
+      267,  195,  195,  179,  195,  162,  197,  197,  197,  264,
+
+      264,  178,  200,  200,  200,  276,  276,  188,  208,  208,
+      208,  214,  214,  214,  220,  220,  220,  197,  228,  228,
+      228,  278,  278,  200,  233,  233,  233,  265,  263,  208,
+      259,  258,  214,  257,  255,  220,  244,  244,  244,  228,
+      248,  248,  248,  254,  253,  233,  256,  256,  256,  260,
+      260,  260,  270,  270,  270,  252,  251,  244,  272,  272,
+      272,  248,  274,  274,  274,  250,  249,  256,  246,  245,
+      260,  243,  242,  270,  277,  277,  277,  241,  239,  272,
+      282,  282,  282,  274,  283,  283,  283,  238,  237,  236,
+      232,  231,  230,  229,  227,  277,  226,  225,  224,  223,
+
+      222,  282,  221,  219,  218,  283,  286,  286,  286,  286,
+      287,  287,  287,  287,  288,  288,  288,  288,  289,  289,
+      289,  289,  290,  290,  290,  290,  291,  291,  291,  291,
+      292,  292,  216,  292,  293,  293,  215,  293,  295,  213,
+      212,  295,  296,  296,  211,  296,  297,  297,  210,  297,
+      298,  298,  298,  298,  299,  299,  207,  299,  300,  300,
+      206,  300,  301,  301,  205,  301,  203,  202,  201,  199,
+      196,  194,  192,  191,  190,  189,  187,  186,  185,  184,
+      181,  180,  177,  176,  175,  174,  173,  171,  170,  169,
+      164,  163,  159,  158,  157,  156,  155,  154,  153,  152,
+
+      151,  150,  149,  145,  139,  137,  136,  135,  134,  130,
+      128,  127,  126,  124,  122,  121,  120,  119,  118,   90,
+       89,   88,   87,   85,   82,   81,   80,   79,   78,   77,
+       72,   46,   45,   44,   41,   40,   38,   36,   33,   30,
+       29,   28,   22,   15,    3,  285,  285,  285,  285,  285,
+      285,  285,  285,  285,  285,  285,  285,  285,  285,  285,
+      285,  285,  285,  285,  285,  285,  285,  285,  285,  285,
+      285,  285,  285,  285,  285,  285,  285,  285,  285,  285,
+      285,  285,  285,  285,  285,  285,  285,  285,  285,  285,
+      285,  285,  285,  285,  285,  285,  285
+
     } ;
 
 /* Table of booleans, true if rule could match eol. */
-static const flex_int32_t yy_rule_can_match_eol[51] =
+static const flex_int32_t yy_rule_can_match_eol[52] =
     {   0,
 0, 0, 0, 1, 0, 1, 1, 0, 1, 0, 0, 1, 1, 1, 0, 0, 1, 0, 1, 
     1, 0, 1, 0, 1, 0, 1, 1, 1, 1, 0, 0, 1, 1, 0, 0, 1, 0, 0, 0, 
-    0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,     };
+    0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0,     };
 
 static yy_state_type yy_last_accepting_state;
 static char *yy_last_accepting_cpos;
@@ -971,13 +986,13 @@ yy_match:
 			while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 				{
 				yy_current_state = (int) yy_def[yy_current_state];
-				if ( yy_current_state >= 277 )
+				if ( yy_current_state >= 286 )
 					yy_c = yy_meta[yy_c];
 				}
 			yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
 			++yy_cp;
 			}
-		while ( yy_current_state != 276 );
+		while ( yy_current_state != 285 );
 		yy_cp = (yy_last_accepting_cpos);
 		yy_current_state = (yy_last_accepting_state);
 
@@ -1223,11 +1238,16 @@ YY_RULE_SETUP
 { return LEX_SEMICOLON; }
 	YY_BREAK
 case 49:
+/* rule 49 can match eol */
 YY_RULE_SETUP
-{ set_illegal_char(); return LEX_ERROR; }
+{ set_illegal_char(); return LEX_ILLEGAL; }
 	YY_BREAK
 case 50:
 YY_RULE_SETUP
+{ set_illegal_char(); return LEX_ILLEGAL; }
+	YY_BREAK
+case 51:
+YY_RULE_SETUP
 ECHO;
 	YY_BREAK
 case YY_STATE_EOF(INITIAL):
@@ -1534,7 +1554,7 @@ static int yy_get_next_buffer (void)
 		while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 			{
 			yy_current_state = (int) yy_def[yy_current_state];
-			if ( yy_current_state >= 277 )
+			if ( yy_current_state >= 286 )
 				yy_c = yy_meta[yy_c];
 			}
 		yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
@@ -1562,11 +1582,11 @@ static int yy_get_next_buffer (void)
 	while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 		{
 		yy_current_state = (int) yy_def[yy_current_state];
-		if ( yy_current_state >= 277 )
+		if ( yy_current_state >= 286 )
 			yy_c = yy_meta[yy_c];
 		}
 	yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
-	yy_is_jam = (yy_current_state == 276);
+	yy_is_jam = (yy_current_state == 285);
 
 		return yy_is_jam ? 0 : yy_current_state;
 }
diff --git a/src/tokenize.cpp b/src/tokenize.cpp
index c3ae8a7..9024dfc 100644
--- a/src/tokenize.cpp
+++ b/src/tokenize.cpp
@@ -76,6 +76,7 @@ namespace /* anonymous */
                 case LEX_ID:
                 case LEX_OTHER:
                 case LEX_EQUAL:
+                case LEX_ILLEGAL:
                     /* ignore */
                     break;
 
@@ -137,6 +138,9 @@ namespace /* anonymous */
                 case LEX_CURLY_CLOSE:
                 case LEX_EQUAL:
                     lex::set_illegal_char();
+                    [[fallthrough]];
+
+                case LEX_ILLEGAL:
                     rv = LEX_ERROR;
                     loop = false;
                     break;
-- 
2.43.0


From f2f590da1fc013f0599c9a2e41c0b208653216f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:03 +0000
Subject: [PATCH 08/56] fix: -param=create must not use ... as an argument

---
 src/parameter_names.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parameter_names.cpp b/src/parameter_names.cpp
index 5599122..701c304 100644
--- a/src/parameter_names.cpp
+++ b/src/parameter_names.cpp
@@ -240,7 +240,7 @@ bool parse::create_parameter_names(proto_t &proto, std::string &msg)
         /* don't append anything to `...' */
         if (v.size() == 1 && v.front() == "...") {
             proto.args += "... , ";
-            proto.param_names += "... , ";
+            /* don't append to proto.param_names */
             continue;
         }
 
-- 
2.43.0


From 78c189c7242d84198ec5b7f5dfca9fe07f72695c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:03 +0000
Subject: [PATCH 09/56] fix: refuse an empty last parameter

---
 src/parse.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parse.cpp b/src/parse.cpp
index f39c1ea..d10ba78 100644
--- a/src/parse.cpp
+++ b/src/parse.cpp
@@ -150,7 +150,8 @@ namespace /* anonymous */
             tokens.push_back(*it);
         }
 
-        if (!tokens.empty()) {
+        /* empty if there are no parameters at all */
+        if (!tokens.empty() || !proto.args_vec.empty()) {
             proto.args_vec.push_back(std::move(tokens));
         }
     }
-- 
2.43.0


From 9d3683e0c8e37a82daaf488cf335167d4d0b371e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:01 +0000
Subject: [PATCH 10/56] fix: report filesystem errors instead of terminating on
 an uncaught exception

---
 src/main.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main.cpp b/src/main.cpp
index cc032bf..83a540c 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -22,6 +22,7 @@
  SOFTWARE.
 **/
 
+#include <exception>
 #include <iostream>
 #include <string>
 #ifdef _WIN32
@@ -62,7 +63,8 @@ int main(int argc, char **argv)
         std::cerr << "Try `" << argv[0] << " -help' for more information." << std::endl;
         return 1;
     }
-    catch (const gendlopen::error &e) {
+    catch (const std::exception &e) {
+        /* gendlopen::error, std::filesystem::filesystem_error, etc. */
         std::cerr << utils::progname(argv[0]) << ": error: " << e.what() << std::endl;
         return 1;
     }
-- 
2.43.0


From ad4e5b11f1f67e8cb83abbe9b7bfad228adcb684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:49 +0000
Subject: [PATCH 11/56] fix: exit with an error if the output could not be
 written completely

---
 src/cio_ofstream.cpp |  7 ++++++-
 src/cio_ofstream.hpp |  3 ++-
 src/data.cpp         |  4 ++++
 src/gendlopen.cpp    |  2 ++
 src/gendlopen.hpp    |  3 +++
 src/generate.cpp     | 12 +++++++++++-
 src/main.cpp         |  2 ++
 src/options.cpp      |  4 ++++
 src/utils.cpp        | 11 +++++++++++
 src/utils.hpp        |  4 ++++
 10 files changed, 49 insertions(+), 3 deletions(-)

diff --git a/src/cio_ofstream.cpp b/src/cio_ofstream.cpp
index a531de6..a0c5fc9 100644
--- a/src/cio_ofstream.cpp
+++ b/src/cio_ofstream.cpp
@@ -52,13 +52,18 @@ bool ofstream::open(const std::string &file)
     return open_path(file);
 }
 
-void ofstream::close()
+bool ofstream::close()
 {
+    m_optr->flush();
+
     if (m_ofs.is_open()) {
         m_ofs.close();
     }
 
+    const bool rv = m_optr->good();
     m_optr = &std::cout;
+
+    return rv;
 }
 
 } /* namespace cio */
diff --git a/src/cio_ofstream.hpp b/src/cio_ofstream.hpp
index 400aebe..bb5790c 100644
--- a/src/cio_ofstream.hpp
+++ b/src/cio_ofstream.hpp
@@ -64,7 +64,8 @@ public:
     bool open(const std::filesystem::path &path);
     bool open(const std::string &file);
 
-    void close();
+    /* flush and close, returns false if some data could not be written */
+    bool close();
 
     /* overloading "<<" operator */
     template<class T>
diff --git a/src/data.cpp b/src/data.cpp
index c3d0dd3..2cf12bd 100644
--- a/src/data.cpp
+++ b/src/data.cpp
@@ -129,6 +129,10 @@ namespace /* anonymous */
                 ofs << '\n';
             }
         }
+
+        if (!ofs.close()) {
+            throw gendlopen::error(std::string("failed to write file: ") + path);
+        }
     }
 }
 
diff --git a/src/gendlopen.cpp b/src/gendlopen.cpp
index cb8a80a..0268076 100644
--- a/src/gendlopen.cpp
+++ b/src/gendlopen.cpp
@@ -210,6 +210,8 @@ void gendlopen::process_custom_template()
         substitute_line(entry, param_skip_code);
         m_substitute_lineno += entry.line_count;
     }
+
+    save::close_ofstream();
 }
 
 
diff --git a/src/gendlopen.hpp b/src/gendlopen.hpp
index e3052d2..81820ca 100644
--- a/src/gendlopen.hpp
+++ b/src/gendlopen.hpp
@@ -40,6 +40,9 @@ namespace save
 
     /* open output file stream for writing */
     void open_ofstream(const std::filesystem::path &opath, bool force);
+
+    /* close output file stream, throws if writing has failed */
+    void close_ofstream();
 }
 
 
diff --git a/src/generate.cpp b/src/generate.cpp
index 277aa3a..b811812 100644
--- a/src/generate.cpp
+++ b/src/generate.cpp
@@ -370,6 +370,14 @@ void open_ofstream(const fs::path &opath, bool force)
     }
 }
 
+/* close output file stream, throws if writing has failed */
+void close_ofstream()
+{
+    if (!ofs.close()) {
+        throw gendlopen::error("failed to write the output");
+    }
+}
+
 size_t line_directive(const size_t lines, bool line_directive, const std::string &header_name)
 {
     if (!line_directive) {
@@ -519,7 +527,7 @@ void gendlopen::generate()
     lines += save::line_directive(lines, m_line_directive, header_name);
     save::header_guard_end(header_name, m_pfx_upper, m_pragma_once, is_cxx);
 
-    save::ofs.close();
+    save::close_ofstream();
 
 
     /**************** body data ****************/
@@ -531,6 +539,8 @@ void gendlopen::generate()
         save::include_header(header_name, m_pfx_upper);
 
         substitute(body_data);
+
+        save::close_ofstream();
     }
 }
 
diff --git a/src/main.cpp b/src/main.cpp
index 83a540c..71a5fe1 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -57,6 +57,8 @@ int main(int argc, char **argv)
             /* generate output */
             gdo.generate();
         }
+
+        utils::flush_stdout();
     }
     catch (const gendlopen::error_cmd &e) {
         std::cerr << utils::progname(argv[0]) << ": error: " << e.what() << std::endl;
diff --git a/src/options.cpp b/src/options.cpp
index ae2fa63..68f3ff7 100644
--- a/src/options.cpp
+++ b/src/options.cpp
@@ -93,9 +93,11 @@ void gendlopen::parse_cmdline(const int &argc, char ** const &argv)
             }
         } else if (o.flag("?") || o.flag("help")) {
             help::print(argv[0]);
+            utils::flush_stdout();
             std::exit(0);
         } else if (o.flag("full-help")) {
             help::print_full(argv[0]);
+            utils::flush_stdout();
             std::exit(0);
         } else if (o.flag("ast-all-symbols")) {
             ast_all_symbols(true);
@@ -103,6 +105,7 @@ void gendlopen::parse_cmdline(const int &argc, char ** const &argv)
             add_def(p);
         } else if (o.arg(p, "dump-templates")) {
             dump_templates(p);
+            utils::flush_stdout();
             std::exit(0);
         } else if (o.arg(p, "format")) {
             format(p);
@@ -140,6 +143,7 @@ void gendlopen::parse_cmdline(const int &argc, char ** const &argv)
             templates_path(p);
         } else if (o.flag("version")) {
             std::cout << "gendlopen " << gendlopen::version() << std::endl;
+            utils::flush_stdout();
             std::exit(0);
         } else {
             throw gendlopen::error_cmd(std::string("unknown option: ") + o.current());
diff --git a/src/utils.cpp b/src/utils.cpp
index ac86140..1ae1f10 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -23,6 +23,8 @@
 **/
 
 #include <cctype>
+#include <iostream>
+#include <stdexcept>
 #include "utils.hpp"
 
 
@@ -203,6 +205,15 @@ void utils::append_missing_separator(std::string &path)
 }
 
 
+/* flush standard output, throws if writing has failed */
+void utils::flush_stdout()
+{
+    if (!std::cout.flush()) {
+        throw std::runtime_error("failed to write to standard output");
+    }
+}
+
+
 #ifdef UTILS_PROGNAME_FALLBACK
 
 /* get program name without full path */
diff --git a/src/utils.hpp b/src/utils.hpp
index 371d315..71d18c3 100644
--- a/src/utils.hpp
+++ b/src/utils.hpp
@@ -116,6 +116,10 @@ bool get_lines(FILE *fp, template_t &entry);
 void append_missing_separator(std::string &path);
 
 
+/* flush standard output, throws if writing has failed */
+void flush_stdout();
+
+
 /* get program name without full path */
 #ifdef HAVE_PROGRAM_INVOCATION_SHORT_NAME
 
-- 
2.43.0


From e4ae122569bc8ad6727ba152dac3040e92a0cc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:01 +0000
Subject: [PATCH 12/56] fix: exit with an error if a template could not be read

---
 src/data.cpp      | 4 ++++
 src/gendlopen.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/data.cpp b/src/data.cpp
index 2cf12bd..0e86384 100644
--- a/src/data.cpp
+++ b/src/data.cpp
@@ -95,6 +95,10 @@ namespace /* anonymous */
             data.push_back(entry);
         }
 
+        if (::ferror(fp)) {
+            throw gendlopen::error("failed to read file: " + path);
+        }
+
         entry = { {}, 0, 0 };
         data.push_back(entry);
     }
diff --git a/src/gendlopen.cpp b/src/gendlopen.cpp
index 0268076..40865cf 100644
--- a/src/gendlopen.cpp
+++ b/src/gendlopen.cpp
@@ -211,6 +211,10 @@ void gendlopen::process_custom_template()
         m_substitute_lineno += entry.line_count;
     }
 
+    if (::ferror(fp)) {
+        throw error("failed to read file: " + m_custom_template);
+    }
+
     save::close_ofstream();
 }
 
-- 
2.43.0


From cf5359c8cdfca1898a954c76190b9c54617e1f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:23 +0000
Subject: [PATCH 13/56] fix: dumped templates must give the same output as the
 built-in ones

---
 src/data.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/data.cpp b/src/data.cpp
index 0e86384..c31b7c7 100644
--- a/src/data.cpp
+++ b/src/data.cpp
@@ -83,7 +83,7 @@ namespace /* anonymous */
             if (fp == stdin) {
                 entry.data = "#line 1 \"<STDIN>\"";
             } else {
-                entry.data = "#line 1 \"" + std::string(file) + "\"\n";
+                entry.data = "#line 1 \"" + std::string(file) + '"';
             }
 
             data.push_back(entry);
@@ -92,7 +92,11 @@ namespace /* anonymous */
         /* read lines */
         while (rv) {
             rv = utils::get_lines(fp, entry);
-            data.push_back(entry);
+
+            /* there is no line after the last newline */
+            if (rv || !entry.data.empty()) {
+                data.push_back(entry);
+            }
         }
 
         if (::ferror(fp)) {
@@ -117,6 +121,11 @@ namespace /* anonymous */
 
         std::cout << "saving " << path << std::endl;
 
+        /* skip initial line directive, it's not part of the template file */
+        if (list->data.starts_with("#line 1 \"<built-in>/")) {
+            list++;
+        }
+
         for ( ; list->line_count != 0; list++) {
             if (list->line_count == 1) {
                 ofs << list->data << '\n';
-- 
2.43.0


From 347371e701bfd9ab7029f16d50034305c1ce4bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:34 +0000
Subject: [PATCH 14/56] fix: use license.h and filename_macros.h from
 -templates-path

---
 src/gendlopen.hpp | 2 +-
 src/generate.cpp  | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gendlopen.hpp b/src/gendlopen.hpp
index 81820ca..c5a2a18 100644
--- a/src/gendlopen.hpp
+++ b/src/gendlopen.hpp
@@ -109,7 +109,7 @@ private:
     void dump_templates(const char *dir);
 
     /* generate.cpp */
-    size_t save_data(templates::name file, const template_t *list);
+    size_t save_data(templates::name file, const template_t *&ptr);
 
     /* substitute.cpp */
     size_t replace_function_prototypes(const std::string &entry);
diff --git a/src/generate.cpp b/src/generate.cpp
index b811812..b07e6c9 100644
--- a/src/generate.cpp
+++ b/src/generate.cpp
@@ -395,11 +395,13 @@ size_t line_directive(const size_t lines, bool line_directive, const std::string
 
 
 /* save data, replace prefixes, return line count */
-size_t gendlopen::save_data(templates::name file, const template_t *list)
+size_t gendlopen::save_data(templates::name file, const template_t *&ptr)
 {
     size_t total_lines = 0;
 
+    /* this may change the pointer */
     load_template(file);
+    const template_t *list = ptr;
 
     /* skip initial line directive */
     if (!m_line_directive && strncmp(list->data.c_str(), "#line", 5) == 0) {
-- 
2.43.0


From a0c9fc721926d52d51721314c7a39bc40b6a6f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:55 +0000
Subject: [PATCH 15/56] fix: wrong line numbers in #line directives

---
 src/generate.cpp   | 2 ++
 src/substitute.cpp | 8 ++++----
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/generate.cpp b/src/generate.cpp
index b07e6c9..418061f 100644
--- a/src/generate.cpp
+++ b/src/generate.cpp
@@ -520,6 +520,8 @@ void gendlopen::generate()
     lines += save::header_guard_begin(header_name, m_pfx_upper, m_pragma_once, is_cxx);
 
     lines += save_data(templates::file_filename_macros, templates::ptr_filename_macros);
+
+    lines += save::line_directive(lines, m_line_directive, header_name);
     lines += save::extra_defines(m_defines);
     lines += save::includes(m_includes, is_cxx);
     lines += save::typedefs(m_typedefs);
diff --git a/src/substitute.cpp b/src/substitute.cpp
index 7fd47a3..ff2e61a 100644
--- a/src/substitute.cpp
+++ b/src/substitute.cpp
@@ -269,13 +269,13 @@ size_t gendlopen::substitute_line(const template_t &line, bool &param_skip_code)
     /* print #line directive to make sure the line count is on par */
     auto print_lineno = [&, this] () -> size_t
     {
-        const size_t entry_lines = utils::count_linefeed(buf);
-
         if (m_line_directive) {
-            save::ofs << "#line " << (m_substitute_lineno + entry_lines) << '\n';
+            /* +1 to compensate for the removed line */
+            save::ofs << "#line " << (m_substitute_lineno + utils::count_linefeed(buf) + 1) << '\n';
+            return 1; /* 1 line */
         }
 
-        return entry_lines;
+        return 0; /* no line */
     };
 
     auto find_keyword = [&buf] (const list_t &list) -> char {
-- 
2.43.0


From 3c1a66940b4c1cf2facbcaa438ba3c296d048a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:10 +0000
Subject: [PATCH 16/56] fix: embed non-ASCII characters and a trailing @ of
 templates correctly

---
 src/gen_templates_data.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/gen_templates_data.c b/src/gen_templates_data.c
index e55adcd..86ded79 100644
--- a/src/gen_templates_data.c
+++ b/src/gen_templates_data.c
@@ -124,7 +124,10 @@ static void dump(FILE *fpOut, const char *in_dir, const char *in_file, const cha
                 break;
             }
 
-            if (c == '\n' || c == EOF) {
+            if (c == EOF) {
+                /* remove trailing '@' */
+                break;
+            } else if (c == '\n') {
                 if (!multi_line) {
                     fprintf(fpOut, "%s", "\\n\" /* multiline entry */\n");
                     multi_line = true;
@@ -141,7 +144,8 @@ static void dump(FILE *fpOut, const char *in_dir, const char *in_file, const cha
 
         default:
             if (c < ' ' || c > '~') {
-                fprintf(fpOut, "\\x%02X", (unsigned char)c);
+                /* octal, since a hex sequence doesn't end after 2 digits */
+                fprintf(fpOut, "\\%03o", (unsigned char)c);
             } else {
                 fprintf(fpOut, "%c", (char)c);
             }
-- 
2.43.0


From 5759d1df596cbd89c7c27ee68a33f289b6790c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:19 +0000
Subject: [PATCH 17/56] fix: Clang AST: symbols selected by prefix and by name
 are not missing

---
 src/clang_ast.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/clang_ast.cpp b/src/clang_ast.cpp
index 26c8cee..4f45968 100644
--- a/src/clang_ast.cpp
+++ b/src/clang_ast.cpp
@@ -184,8 +184,9 @@ int gendlopen::get_declarations(filter::mode mode)
         break;
 
     case filter::pfx_list:
-        if (!utils::is_prefixed(proto.symbol, m_prefix_list) &&
-            std::erase(m_symbol_list, proto.symbol) == 0) /* erase from list if found */
+        /* always erase from list if found */
+        if (std::erase(m_symbol_list, proto.symbol) == 0 &&
+            !utils::is_prefixed(proto.symbol, m_prefix_list))
         {
             return 0;
         }
-- 
2.43.0


From 1eb156b38c1744580f68a3e7403d363fce2e5917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:33 +0000
Subject: [PATCH 18/56] fix: Clang AST: use repeated declarations only once

---
 src/clang_ast.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/clang_ast.cpp b/src/clang_ast.cpp
index 4f45968..9890f55 100644
--- a/src/clang_ast.cpp
+++ b/src/clang_ast.cpp
@@ -54,6 +54,7 @@ TranslationUnitDecl 0x5b4b21b885b8 <<invalid sloc>> <invalid sloc>
 ***/
 
 #include <stddef.h>
+#include <algorithm>
 #include <regex>
 #include <string>
 #include <vector>
@@ -161,6 +162,15 @@ int gendlopen::get_declarations(filter::mode mode)
         return 0;
     }
 
+    /* declarations may be repeated */
+    auto is_known = [&m] (const vproto_t &vec) {
+        return std::any_of(vec.begin(), vec.end(), [&m] (const proto_t &e) { return (e.symbol == m.str(1)); });
+    };
+
+    if (is_known(m_prototypes) || is_known(m_objects)) {
+        return 0;
+    }
+
     /* check for a prefixed symbol or a symbol from a whitelist */
     proto_t proto;
 
-- 
2.43.0


From 44d64b769400a872e2bdf773955ee62404a11d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:47 +0000
Subject: [PATCH 19/56] fix: Clang AST: don't lose the void and ... in
 parameter lists

---
 src/clang_ast.cpp | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/clang_ast.cpp b/src/clang_ast.cpp
index 9890f55..62e9631 100644
--- a/src/clang_ast.cpp
+++ b/src/clang_ast.cpp
@@ -130,6 +130,24 @@ bool get_parameters(std::string &args, std::string &param_names, int &param_coun
     return true;
 }
 
+
+/* get what's inside of the parentheses beginning at `pos' */
+std::string get_parameter_list(const std::string &type, size_t pos)
+{
+    int scope = 0;
+    size_t end = pos;
+
+    for ( ; end < type.size(); end++) {
+        if (type[end] == '(') {
+            scope++;
+        } else if (type[end] == ')' && --scope == 0) {
+            break;
+        }
+    }
+
+    return type.substr(pos + 1, end - pos - 1);
+}
+
 } /* end anonymous namespace */
 
 
@@ -227,9 +245,19 @@ int gendlopen::get_declarations(filter::mode mode)
             }
         }
 
-        utils::delete_suffix(proto.args, ", ");
         utils::delete_suffix(proto.param_names, ", ");
 
+        /* these have no ParmVarDecl line */
+        const std::string list = get_parameter_list(m.str(2), pos);
+
+        if (list == "void") {
+            proto.args = list;
+        } else if (list.ends_with("...")) {
+            proto.args += "...";
+        } else {
+            utils::delete_suffix(proto.args, ", ");
+        }
+
         m_prototypes.push_back(std::move(proto));
 
         /* continue to analyze the current line stored in yytext buffer */
-- 
2.43.0


From a6fa3bc88c0cdfb05e795da513018d04880e3765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:35 +0000
Subject: [PATCH 20/56] fix: Clang AST: types with pointers to function
 pointers and with qualified function pointers

---
 src/clang_ast.cpp | 14 ++++++--------
 src/tokenize.cpp  |  9 +++------
 src/utils.cpp     | 27 +++++++++++++++++++++++++++
 src/utils.hpp     |  4 ++++
 4 files changed, 40 insertions(+), 14 deletions(-)

diff --git a/src/clang_ast.cpp b/src/clang_ast.cpp
index 62e9631..afcc2fe 100644
--- a/src/clang_ast.cpp
+++ b/src/clang_ast.cpp
@@ -91,7 +91,6 @@ std::string strip_line(const char *line)
 bool get_parameters(std::string &args, std::string &param_names, int &param_count)
 {
     std::smatch m;
-    size_t pos;
 
     const std::regex reg(
         "^[| ] [|`]-ParmVarDecl 0x.*?"
@@ -108,15 +107,14 @@ bool get_parameters(std::string &args, std::string &param_names, int &param_coun
 
     param_names += name + ", ";
 
-    /* search for function pointer */
-    if (utils::find(m.str(1), "(*)", pos)) {
+    std::string type = m.str(1);
+
+    if (utils::insert_declarator(type, name)) {
         /* function pointer */
-        std::string str = m.str(1);
-        str.insert(pos + 2, name);
-        args += str + ", ";
+        args += type + ", ";
     } else {
         /* regular parameter */
-        args += m.str(1);
+        args += type;
 
         if (!args.ends_with('*')) {
             args += ' ';
@@ -264,7 +262,7 @@ int gendlopen::get_declarations(filter::mode mode)
         return 1;
     } else {
         /* variable declaration */
-        if (utils::find(m.str(2), "(*)")) {
+        if (utils::find(m.str(2), "(*")) {
             proto.prototype = proto::function_pointer;
         } else if (utils::find(m.str(2), '[')) {
             proto.prototype = proto::object_array;
diff --git a/src/tokenize.cpp b/src/tokenize.cpp
index 9024dfc..e69f543 100644
--- a/src/tokenize.cpp
+++ b/src/tokenize.cpp
@@ -180,16 +180,13 @@ namespace /* anonymous */
     /* 'void (*)()'  ==>  'void (*name)()' */
     std::string fptr_typedef(const std::string &type, const std::string &name)
     {
-        size_t pos;
+        std::string s = type;
 
-        if (!utils::find(type, "(*)", pos) || type.find('(') != pos) {
+        if (!utils::insert_declarator(s, name)) {
             return {};
         }
 
-        std::string s = type;
-        pos += 2; /* insert after '*' */
-
-        return s.insert(pos, name);
+        return s;
     }
 
 
diff --git a/src/utils.cpp b/src/utils.cpp
index 1ae1f10..0357c59 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -154,6 +154,33 @@ void utils::replace(const std::string &from, const std::string &to, std::string
     }
 }
 
+/* insert a name into a function pointer type, i.e. 'void (*)()' or 'void (**const)()' */
+bool utils::insert_declarator(std::string &type, const std::string &name)
+{
+    size_t pos;
+
+    if (!utils::find(type, "(*", pos)) {
+        return false;
+    }
+
+    /* skip pointers and qualifiers; a nested pointer comes first */
+    while (type.compare(pos, 2, "(*") == 0) {
+        pos = type.find_first_of("()[", pos + 1);
+
+        if (pos == std::string::npos) {
+            return false;
+        }
+    }
+
+    if (type.at(pos - 1) != '*') {
+        type.insert(pos++, 1, ' ');
+    }
+
+    type.insert(pos, name);
+
+    return true;
+}
+
 /* count '\n' characters */
 size_t utils::count_linefeed(const std::string &str)
 {
diff --git a/src/utils.hpp b/src/utils.hpp
index 71d18c3..5ca6831 100644
--- a/src/utils.hpp
+++ b/src/utils.hpp
@@ -104,6 +104,10 @@ void strip_spaces(std::string &s);
 void replace(const std::string &from, const std::string &to, std::string &s);
 
 
+/* insert a name into a function pointer type, i.e. 'void (*)()' or 'void (**const)()' */
+bool insert_declarator(std::string &type, const std::string &name);
+
+
 /* count '\n' characters */
 size_t count_linefeed(const std::string &str);
 
-- 
2.43.0


From e68ac172bbad1f8ba00deb6784425a622edeca77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:46 +0000
Subject: [PATCH 21/56] fix: Clang AST: don't declare functions with a wrong
 type

---
 src/clang_ast.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/clang_ast.cpp b/src/clang_ast.cpp
index afcc2fe..875d066 100644
--- a/src/clang_ast.cpp
+++ b/src/clang_ast.cpp
@@ -55,6 +55,7 @@ TranslationUnitDecl 0x5b4b21b885b8 <<invalid sloc>> <invalid sloc>
 
 #include <stddef.h>
 #include <algorithm>
+#include <iostream>
 #include <regex>
 #include <string>
 #include <vector>
@@ -129,6 +130,14 @@ bool get_parameters(std::string &args, std::string &param_names, int &param_coun
 }
 
 
+/* check if type is 'TYPE (PARAMETERS)' */
+bool is_supported_function(const std::string &type)
+{
+    size_t pos;
+
+    return (utils::find(type, '(', pos) && utils::str_at(type, pos + 1) != '*');
+}
+
 /* get what's inside of the parentheses beginning at `pos' */
 std::string get_parameter_list(const std::string &type, size_t pos)
 {
@@ -194,6 +203,15 @@ int gendlopen::get_declarations(filter::mode mode)
     proto.saved     = false;
     proto.symbol    = m.str(1);
 
+    /* cannot declare functions returning a function pointer, or whose type is a typedef
+     * (symbols on the list will be reported as not found) */
+    if (is_function && !is_supported_function(m.str(2))) {
+        if (mode == filter::none || utils::is_prefixed(proto.symbol, m_prefix_list)) {
+            std::cerr << "warning: function with unsupported type ignored: " << proto.symbol << std::endl;
+        }
+        return 0;
+    }
+
     switch (mode)
     {
     case filter::prefix:
-- 
2.43.0


From f9b5b963d84c7e5b6425c42e907c51e9f69294ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:23 +0000
Subject: [PATCH 22/56] fix: stack overflow on very long Clang AST lines and
 library names

---
 src/clang_ast.cpp | 101 +++++++++++++++++++++++++++-------------------
 src/generate.cpp  |  11 +++--
 2 files changed, 64 insertions(+), 48 deletions(-)

diff --git a/src/clang_ast.cpp b/src/clang_ast.cpp
index 875d066..d81f304 100644
--- a/src/clang_ast.cpp
+++ b/src/clang_ast.cpp
@@ -56,7 +56,6 @@ TranslationUnitDecl 0x5b4b21b885b8 <<invalid sloc>> <invalid sloc>
 #include <stddef.h>
 #include <algorithm>
 #include <iostream>
-#include <regex>
 #include <string>
 #include <vector>
 #include "gendlopen.hpp"
@@ -77,30 +76,63 @@ constexpr const char *err_no_symbols =
 /* strip ANSI colors and Windows line endings from line */
 std::string strip_line(const char *line)
 {
-    const std::regex reg(R"(\x1B\[[0-9;]*m)");
-
+    size_t pos = 0;
     std::string s = line;
 
     /* remains of Windows line endings */
     utils::delete_suffix(s, '\r');
 
-    return s.empty() ? "" : std::regex_replace(s, reg, "");
+    /* ESC [ 0-9; m */
+    while ((pos = s.find("\x1B[", pos)) != std::string::npos) {
+        size_t end = s.find_first_not_of("0123456789;", pos + 2);
+
+        if (utils::str_at(s, end) == 'm') {
+            s.erase(pos, end - pos + 1);
+        } else {
+            pos++;
+        }
+    }
+
+    return s;
 }
 
 
-/* get function parameter declaration */
-bool get_parameters(std::string &args, std::string &param_names, int &param_count)
+/* find " NAME 'TYPE'", name may be NULL */
+bool find_name_and_type(const std::string &line, std::string *name, std::string &type)
 {
-    std::smatch m;
+    for (size_t pos = 0; (pos = line.find(" '", pos)) != std::string::npos; pos++) {
+        if (name) {
+            size_t beg = line.find_last_not_of(
+                "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_", pos - 1);
 
-    const std::regex reg(
-        "^[| ] [|`]-ParmVarDecl 0x.*?"
-        " '(.*?)'.*"  /* type */
-    );
+            if (pos == 0 || beg == std::string::npos || line.at(beg) != ' ' || beg == pos - 1) {
+                continue;
+            }
 
-    const std::string line = strip_line(lex::text());
+            *name = line.substr(beg + 1, pos - beg - 1);
+        }
+
+        size_t end = line.find('\'', pos + 2);
+
+        if (end == std::string::npos) {
+            return false;
+        }
 
-    if (line.empty() || !std::regex_match(line, m, reg) || m.size() != 2) {
+        type = line.substr(pos + 2, end - pos - 2);
+
+        return true;
+    }
+
+    return false;
+}
+
+
+/* get function parameter declaration */
+bool get_parameters(std::string &args, std::string &param_names, int &param_count)
+{
+    std::string type;
+
+    if (!find_name_and_type(strip_line(lex::text()), NULL, type)) {
         return false;
     }
 
@@ -108,8 +140,6 @@ bool get_parameters(std::string &args, std::string &param_names, int &param_coun
 
     param_names += name + ", ";
 
-    std::string type = m.str(1);
-
     if (utils::insert_declarator(type, name)) {
         /* function pointer */
         args += type + ", ";
@@ -161,35 +191,22 @@ std::string get_parameter_list(const std::string &type, size_t pos)
 /* get function or variable declaration (initialization of prototype structs) */
 int gendlopen::get_declarations(filter::mode mode)
 {
-    std::smatch m;
-
-    const std::regex reg_func(
-        "^[|`]-FunctionDecl 0x.*?"
-        " ([a-zA-Z0-9_]*?) "  /* symbol */
-        "'(.*?)'.*"           /* type */
-    );
-
-    const std::regex reg_var(
-        "^[|`]-VarDecl 0x.*?"
-        " ([a-zA-Z0-9_]*?) "  /* symbol */
-        "'(.*?)'.*"           /* type */
-    );
+    std::string symbol, type;
 
     const std::string line = strip_line(lex::text());
+    const bool is_function = (line.find("-FunctionDecl 0x") == 1);
 
-    if (line.empty()) {
+    if (!is_function && line.find("-VarDecl 0x") != 1) {
         return 0;
     }
 
-    const bool is_function = (utils::str_at(line, 2) == 'F');
-
-    if (!std::regex_match(line, m, is_function ? reg_func : reg_var) || m.size() != 3) {
+    if (!find_name_and_type(line, &symbol, type)) {
         return 0;
     }
 
     /* declarations may be repeated */
-    auto is_known = [&m] (const vproto_t &vec) {
-        return std::any_of(vec.begin(), vec.end(), [&m] (const proto_t &e) { return (e.symbol == m.str(1)); });
+    auto is_known = [&symbol] (const vproto_t &vec) {
+        return std::any_of(vec.begin(), vec.end(), [&symbol] (const proto_t &e) { return (e.symbol == symbol); });
     };
 
     if (is_known(m_prototypes) || is_known(m_objects)) {
@@ -201,11 +218,11 @@ int gendlopen::get_declarations(filter::mode mode)
 
     proto.prototype = proto::function;
     proto.saved     = false;
-    proto.symbol    = m.str(1);
+    proto.symbol    = symbol;
 
     /* cannot declare functions returning a function pointer, or whose type is a typedef
      * (symbols on the list will be reported as not found) */
-    if (is_function && !is_supported_function(m.str(2))) {
+    if (is_function && !is_supported_function(type)) {
         if (mode == filter::none || utils::is_prefixed(proto.symbol, m_prefix_list)) {
             std::cerr << "warning: function with unsupported type ignored: " << proto.symbol << std::endl;
         }
@@ -245,13 +262,13 @@ int gendlopen::get_declarations(filter::mode mode)
         size_t pos;
         int rv, param_count = 1;
 
-        if (!utils::find(m.str(2), '(', pos)) {
+        if (!utils::find(type, '(', pos)) {
             return 0;
         }
 
         proto.prototype = proto::function;
 
-        proto.type = m.str(2).substr(0, pos);
+        proto.type = type.substr(0, pos);
         utils::strip_spaces(proto.type);
 
         /* read next lines for parameters */
@@ -264,7 +281,7 @@ int gendlopen::get_declarations(filter::mode mode)
         utils::delete_suffix(proto.param_names, ", ");
 
         /* these have no ParmVarDecl line */
-        const std::string list = get_parameter_list(m.str(2), pos);
+        const std::string list = get_parameter_list(type, pos);
 
         if (list == "void") {
             proto.args = list;
@@ -280,15 +297,15 @@ int gendlopen::get_declarations(filter::mode mode)
         return 1;
     } else {
         /* variable declaration */
-        if (utils::find(m.str(2), "(*")) {
+        if (utils::find(type, "(*")) {
             proto.prototype = proto::function_pointer;
-        } else if (utils::find(m.str(2), '[')) {
+        } else if (utils::find(type, '[')) {
             proto.prototype = proto::object_array;
         } else {
             proto.prototype = proto::object;
         }
 
-        proto.type = m.str(2);
+        proto.type = type;
         utils::strip_spaces(proto.type);
 
         m_objects.push_back(std::move(proto));
diff --git a/src/generate.cpp b/src/generate.cpp
index 418061f..406fcfd 100644
--- a/src/generate.cpp
+++ b/src/generate.cpp
@@ -34,7 +34,6 @@
 #include <locale>
 #include <iomanip>
 #include <iostream>
-#include <regex>
 #include <sstream>
 #include <string>
 #include <vector>
@@ -177,14 +176,14 @@ std::string format_libname(const std::string &str, const std::string &pfx)
     case 'a':
         /* no quotes, API libname macro */
         if (utils::prefixed_and_longer_case(str, "api:")) {
-            const std::regex reg("(.*?):(.*)");
-            std::smatch m;
+            size_t pos;
             auto sub = str.substr(4);
 
-            if (std::regex_match(sub, m, reg) && m.size() == 3) {
+            if (utils::find(sub, ':', pos)) {
                 /* GDO_LIBNAMEA(xxx,0) */
-                lib_a = pfx + "_LIBNAMEA(" + m[2].str() + ',' + m[1].str() + ')';
-                lib_w = pfx + "_LIBNAMEW(" + m[2].str() + ',' + m[1].str() + ')';
+                const std::string args = sub.substr(pos + 1) + ',' + sub.substr(0, pos);
+                lib_a = pfx + "_LIBNAMEA(" + args + ')';
+                lib_w = pfx + "_LIBNAMEW(" + args + ')';
                 break;
             }
         }
-- 
2.43.0


From 384d8fc941062b3b7f51d005331297d35bc4289c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:30 +0000
Subject: [PATCH 23/56] fix: endless loop if a replacement contains the
 replaced string

---
 src/utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 0357c59..4aa9be3 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -148,7 +148,7 @@ void utils::replace(const std::string &from, const std::string &to, std::string
 {
     size_t pos = 0;
 
-    while (utils::find(str, from, pos)) {
+    while ((pos = str.find(from, pos)) != std::string::npos) {
         str.replace(pos, from.size(), to);
         pos += to.size();
     }
-- 
2.43.0


From 3a69c84e6e2c88a754e3b4cacf4ce9f62877183e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:35 +0000
Subject: [PATCH 24/56] fix: wrong option prefix in error message

---
 src/opt_parser.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opt_parser.h b/src/opt_parser.h
index 2d08a43..6ab6478 100644
--- a/src/opt_parser.h
+++ b/src/opt_parser.h
@@ -337,7 +337,7 @@ bool opt_get_arg(struct opt_args *a, const char *opt, size_t len)
     p++;
 
     if (_opt_prefix_long && a->pfxlen == 2) {
-        pfx[1] = p[1];
+        pfx[1] = p[0];
         p++;
     }
 
-- 
2.43.0


From afb34b48bf405c343eeebf22c5602d30a36216cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:40 +0000
Subject: [PATCH 25/56] fix: put the object aliases into parentheses

An alias like `*GDO_RAWPTR_x' turned `x[0]', `x.member', `x++' or
`sizeof x' into a different expression.
---
 src/templates/c.c               | 2 +-
 src/templates/c.h               | 2 +-
 src/templates/cxx.cpp           | 2 +-
 src/templates/cxx.hpp           | 2 +-
 src/templates/minimal.h         | 2 +-
 src/templates/minimal_cxxeh.hpp | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/templates/c.c b/src/templates/c.c
index e9f57ca..2e09dfe 100644
--- a/src/templates/c.c
+++ b/src/templates/c.c
@@ -980,7 +980,7 @@ GDO_LINKAGE void _gdo_wrap_check_loaded(void *symptr, int load, const gdo_char_t
 #endif
 
 /* aliases to raw object pointers */
-#define %%obj_symbol_pad%% *GDO_RAWPTR_%%obj_symbol%%
+#define %%obj_symbol_pad%% (*GDO_RAWPTR_%%obj_symbol%%)
 
 #endif //!GDO_SEPARATE
 
diff --git a/src/templates/c.h b/src/templates/c.h
index 2b2626f..ff99f12 100644
--- a/src/templates/c.h
+++ b/src/templates/c.h
@@ -297,7 +297,7 @@ GDO_DECL void _gdo_wrap_check_loaded(void *symptr, int load, const gdo_char_t *s
 #endif
 
 /* object name aliases */
-#define %%obj_symbol_pad%% *GDO_RAWPTR_%%obj_symbol%%
+#define %%obj_symbol_pad%% (*GDO_RAWPTR_%%obj_symbol%%)
 
 #endif //GDO_SEPARATE ...
 
diff --git a/src/templates/cxx.cpp b/src/templates/cxx.cpp
index 73b87e2..d83d613 100644
--- a/src/templates/cxx.cpp
+++ b/src/templates/cxx.cpp
@@ -1080,7 +1080,7 @@ namespace gdo
 #endif
 
 /* aliases to raw object pointers */
-#define %%obj_symbol_pad%% *GDO_RAWPTR_%%obj_symbol%%
+#define %%obj_symbol_pad%% (*GDO_RAWPTR_%%obj_symbol%%)
 
 #endif //!GDO_SEPARATE
 
diff --git a/src/templates/cxx.hpp b/src/templates/cxx.hpp
index 5808444..3c02fff 100644
--- a/src/templates/cxx.hpp
+++ b/src/templates/cxx.hpp
@@ -508,7 +508,7 @@ namespace gdo {
 #endif
 
 /* object name aliases */
-#define %%obj_symbol_pad%% *GDO_RAWPTR_%%obj_symbol%%
+#define %%obj_symbol_pad%% (*GDO_RAWPTR_%%obj_symbol%%)
 
 #endif //GDO_SEPARATE ...
 
diff --git a/src/templates/minimal.h b/src/templates/minimal.h
index ab29a3d..638d506 100644
--- a/src/templates/minimal.h
+++ b/src/templates/minimal.h
@@ -109,7 +109,7 @@ GDO_LINKAGE const char *gdo_load_library_and_symbols(const char *filename)
  * Aliases to raw symbol pointers
  */
 #define %%func_symbol_pad%%  gdo_hndl.GDO_PTR_%%func_symbol%%
-#define %%obj_symbol_pad%%  *gdo_hndl.GDO_PTR_%%obj_symbol%%
+#define %%obj_symbol_pad%%  (*gdo_hndl.GDO_PTR_%%obj_symbol%%)
 
 #endif // !GDO_DISABLE_ALIASING
 
diff --git a/src/templates/minimal_cxxeh.hpp b/src/templates/minimal_cxxeh.hpp
index de7df4d..f3248e5 100644
--- a/src/templates/minimal_cxxeh.hpp
+++ b/src/templates/minimal_cxxeh.hpp
@@ -149,7 +149,7 @@ namespace gdo
  * Aliases to raw symbol pointers
  */
 #define %%func_symbol_pad%%  gdo::GDO_PTR_%%func_symbol%%
-#define %%obj_symbol_pad%%  *gdo::GDO_PTR_%%obj_symbol%%
+#define %%obj_symbol_pad%%  (*gdo::GDO_PTR_%%obj_symbol%%)
 
 #endif // !GDO_DISABLE_ALIASING
 
-- 
2.43.0


From 5ed604efdd49b8ff12318bfde50e8239a1bd6d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:56 +0000
Subject: [PATCH 26/56] fix: don't define function aliases if
 GDO_WRAP_VISIBILITY is set (C, single file)

The condition used a misspelled macro name.
---
 src/templates/c.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/templates/c.c b/src/templates/c.c
index 2e09dfe..2796997 100644
--- a/src/templates/c.c
+++ b/src/templates/c.c
@@ -975,7 +975,7 @@ GDO_LINKAGE void _gdo_wrap_check_loaded(void *symptr, int load, const gdo_char_t
     !defined(GDO_DISABLE_ALIASING)
 
 /* aliases to raw function pointers */
-#if !defined(GDO_WRAP_IS_VISIBLE)
+#if !defined(GDO_WRAP_VISIBILITY)
 # define %%func_symbol_pad%% GDO_FUNC_ALIAS(%%func_symbol%%)
 #endif
 
-- 
2.43.0


From 95157ab562d3dd477afcd5037f57b0b1a269c2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:31 +0000
Subject: [PATCH 27/56] fix: C++: don't return the path of a library that was
 already freed

The library handle is shared between all dl objects but the saved path is
not, so an object could return an outdated path.
---
 src/templates/cxx.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/templates/cxx.cpp b/src/templates/cxx.cpp
index d83d613..6e73535 100644
--- a/src/templates/cxx.cpp
+++ b/src/templates/cxx.cpp
@@ -256,10 +256,9 @@ void gdo::dl::get_library_path(std::basic_string<T> &path)
 {
     clear_error();
 
-    /* was the library path already saved? */
-    if (!path.empty()) {
-        return;
-    }
+    /* the handle is shared, don't use a path saved before
+     * another object has loaded a different library */
+    path.clear();
 
     if (!lib_loaded()) {
         set_error_invalid_handle();
@@ -953,10 +952,9 @@ std::string gdo::dl::library_path()
         return {};
     }
 
-    /* was the library path already saved? */
-    if (!m_libpath.empty()) {
-        return m_libpath;
-    }
+    /* the handle is shared, don't use a path saved before
+     * another object has loaded a different library */
+    m_libpath.clear();
 
 #if defined(GDO_DLFCN_WIN32) || defined(_AIX)
     if (get_library_path()) {
-- 
2.43.0


From 3ac023419ec08c42fd325806b804a08604cc1344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:48 +0000
Subject: [PATCH 28/56] fix: C++: clear the dlinfo() error before trying
 dladdr()

The old message was still returned by error() although the library path
was successfully received.
---
 src/templates/cxx.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/templates/cxx.cpp b/src/templates/cxx.cpp
index 6e73535..e888be6 100644
--- a/src/templates/cxx.cpp
+++ b/src/templates/cxx.cpp
@@ -477,6 +477,8 @@ bool gdo::dl::get_library_path_dladdr(void)
     /* use dladdr() to get the library path from a symbol pointer */
     Dl_info info;
 
+    clear_error();
+
     if (no_symbols_loaded()) {
         m_errmsg = "no symbols were loaded";
         return false;
-- 
2.43.0


From fb15cd788f71bf59e8d6639a9e95a0c6ec087fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:03 +0000
Subject: [PATCH 29/56] fix: set an error message if the library path is too
 long

---
 src/templates/c.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/templates/c.c b/src/templates/c.c
index 2796997..d078881 100644
--- a/src/templates/c.c
+++ b/src/templates/c.c
@@ -819,6 +819,7 @@ GDO_INLINE bool _gdo_libpath_dlinfo(void)
     size_t len = strlen(lm->l_name) + 1;
 
     if (len > GDO_BUFLEN) {
+        _gdo_save_to_errbuf("buffer is too small to hold the library path");
         return false;
     }
 
@@ -858,6 +859,7 @@ GDO_INLINE bool _gdo_libpath_dladdr(void)
     size_t len = strlen(path) + 1;
 
     if (len > GDO_BUFLEN) {
+        _gdo_save_to_errbuf("buffer is too small to hold the library path");
         return false;
     }
 
-- 
2.43.0


From 04a109912a2b5a151a2fe0c12fc997ceaa142e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:19 +0000
Subject: [PATCH 30/56] fix: offset and device numbers in /proc/self/maps are
 hexadecimal

---
 src/templates/common.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/templates/common.c b/src/templates/common.c
index 90fa721..183b56d 100644
--- a/src/templates/common.c
+++ b/src/templates/common.c
@@ -157,7 +157,7 @@ GDO_INLINE bool _gdo_fullpath_procmap(struct link_map *lm, char *buf, size_t buf
     while (getline(&line, &n, fp) != -1) {
         /* address start-end         mode offset   device inode      pathname */
         /* 7de29d200000-7de29d228000 r--p 00000000 103:01 2758110    /usr/lib/x86_64-linux-gnu/libc.so.6\n */
-        int rv = sscanf(line, "%jx-%jx %4[rwxsp-] %*u %*u:%*u %*u %m[^\n]",
+        int rv = sscanf(line, "%jx-%jx %4[rwxsp-] %*x %*x:%*x %*u %m[^\n]",
                         &start, &end, mode, &path);
 
         if (rv == 4 && lm->l_addr >= start && lm->l_addr < end) {
-- 
2.43.0


From 16a113afc5b3c3d68759652d6db7265ab463b203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:42 +0000
Subject: [PATCH 31/56] fix: minimal templates: don't leak the handle if a
 library is loaded again

If the second attempt failed the pointers into the first library were kept
although the handle was gone.
---
 src/templates/minimal.h         | 3 +++
 src/templates/minimal_cxxeh.hpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/templates/minimal.h b/src/templates/minimal.h
index 638d506..d42a330 100644
--- a/src/templates/minimal.h
+++ b/src/templates/minimal.h
@@ -68,6 +68,9 @@ GDO_LINKAGE const char *gdo_load_library_and_symbols(const char *filename)
         return "filename is empty";
     }
 
+    /* free a previously loaded library */
+    gdo_free_library();
+
     /* load library */
 #ifdef GDO_WINAPI
     gdo_hndl.handle = LoadLibraryA(filename);
diff --git a/src/templates/minimal_cxxeh.hpp b/src/templates/minimal_cxxeh.hpp
index f3248e5..e0532c9 100644
--- a/src/templates/minimal_cxxeh.hpp
+++ b/src/templates/minimal_cxxeh.hpp
@@ -107,6 +107,9 @@ namespace gdo
             throw LibraryError("<EMPTY>");
         }
 
+        /* free a previously loaded library */
+        free_library();
+
         /* load library */
 #ifdef GDO_WINAPI
         handle = ::LoadLibraryA(filename);
-- 
2.43.0


From d74f7bfa735b6438b6160b662557a3ffc48fe6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:58 +0000
Subject: [PATCH 32/56] fix: plugin template uses malloc() and free() without
 including stdlib.h

---
 src/templates/plugin.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/templates/plugin.c b/src/templates/plugin.c
index 449afa7..827f261 100644
--- a/src/templates/plugin.c
+++ b/src/templates/plugin.c
@@ -2,6 +2,7 @@
 /*                            C plugin loader API                            */
 /*****************************************************************************/
 
+#include <stdlib.h>
 #include <string.h>
 
 #ifdef GDO_WINAPI
-- 
2.43.0


From e9f6c05452cd864b56a6a8b1cb0d59b3a7e4263b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:45 +0000
Subject: [PATCH 33/56] fix: a keyword is not a parameter name

`unsigned int' or `T *const' without a name were accepted and gave wrapper
functions using a parameter called `int' or `const'; and -param=create
replaced the qualifier in `int (*const)(int)'.
---
 src/parameter_names.cpp | 39 +++++++++++++++++++++++++++++++++------
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/src/parameter_names.cpp b/src/parameter_names.cpp
index 701c304..a8f8047 100644
--- a/src/parameter_names.cpp
+++ b/src/parameter_names.cpp
@@ -67,6 +67,24 @@ namespace /* anonymous */
     }
 
 
+    /* whether a token cannot be a parameter name */
+    bool is_keyword(const std::string &str)
+    {
+        static const char *list[] = {
+            "char", "const", "double", "enum", "float", "int", "long", "restrict", "short",
+            "signed", "struct", "union", "unsigned", "void", "volatile", "_Bool"
+        };
+
+        for (auto ptr : list) {
+            if (str == ptr) {
+                return true;
+            }
+        }
+
+        return false;
+    }
+
+
     void append_name(proto_t &proto, int &param_count, const char *separator)
     {
         const std::string name = "a" + std::to_string(param_count);
@@ -98,11 +116,17 @@ namespace /* anonymous */
     bool get_function_pointer_type(vstring_t &v, iter_t &it, proto_t &proto, int &param_count)
     {
         int offset;
+        int begin = 2;
 
         if (parse::is_function_pointer(v, it)) {
             /*  type (       * name ) ( )  */
             /*       ^iter + 1 2    3      */
             offset = 3;
+
+            /*  type (       * const ) ( )  */
+            if (is_keyword(*(it + 2))) {
+                begin = 3;
+            }
         } else if (parse::is_function_pointer_no_name(v, it)) {
             /*  type (       * ) ( )  */
             /*       ^iter + 1 2      */
@@ -111,7 +135,7 @@ namespace /* anonymous */
             return false;
         }
 
-        parse::append_strings(proto.args, v.begin(), it + 2);
+        parse::append_strings(proto.args, v.begin(), it + begin);
         append_name(proto, param_count, " ");
         parse::append_strings(proto.args, it + offset, v.end());
         proto.args += ", ";
@@ -155,19 +179,22 @@ namespace /* anonymous */
             }
 
             iter_t it = parse::find_first_not_pointer_or_ident(v);
+            std::string name;
 
             if (parse::is_object(v, it)) {
-                proto.param_names += v.back() + ", ";
-                continue;
+                name = v.back();
             } else if (parse::is_function_pointer(v, it)) {
                 /* type (     * symbol ) ( ) */
                 /*      ^it + 1 2            */
-                proto.param_names += *(it + 2) + ", ";
-                continue;
+                name = *(it + 2);
             } else if (parse::is_array(v, it)) {
                 /* type symbol [   ] */
                 /*      -1     ^it   */
-                proto.param_names += *(it - 1) + ", ";
+                name = *(it - 1);
+            }
+
+            if (!name.empty() && !is_keyword(name)) {
+                proto.param_names += name + ", ";
                 continue;
             }
 
-- 
2.43.0


From 12db4621c30279f441c82da04b11c7ab0e09bf84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:51 +0000
Subject: [PATCH 34/56] fix: C++: generated code did not compile with const or
 volatile objects

---
 src/templates/cxx.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/templates/cxx.cpp b/src/templates/cxx.cpp
index e888be6..9ec60ff 100644
--- a/src/templates/cxx.cpp
+++ b/src/templates/cxx.cpp
@@ -427,7 +427,7 @@ bool gdo::dl::get_library_path(void)
         auto info = reinterpret_cast<struct ld_info *>(buf);
 
         if (false
-            || aix_libpath(info, reinterpret_cast<uint8_t *>(GDO_RAWPTR_%%symbol%%))
+            || aix_libpath(info, (uint8_t *)GDO_RAWPTR_%%symbol%%)
         ) {
             return true;
         }
@@ -485,7 +485,7 @@ bool gdo::dl::get_library_path_dladdr(void)
     }
 
     if (false
-        || _gdo_call_dladdr(reinterpret_cast<void *>(GDO_RAWPTR_%%symbol%%), &info)
+        || _gdo_call_dladdr((void *)GDO_RAWPTR_%%symbol%%, &info)
     ) {
         m_libpath = info.dli_fname;
         return true;
-- 
2.43.0


From a864fb34f10854013ec2139bd91932401076b840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:43 +0000
Subject: [PATCH 35/56] fix: error message said "no error" if the loader gave
 no message for a failure

---
 src/templates/c.c     | 5 ++++-
 src/templates/cxx.cpp | 4 +++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/templates/c.c b/src/templates/c.c
index d078881..870049e 100644
--- a/src/templates/c.c
+++ b/src/templates/c.c
@@ -141,8 +141,11 @@ GDO_INLINE void _gdo_clear_error(void)
 /* save the last message provided by dlerror() */
 GDO_INLINE void _gdo_save_error(const gdo_char_t *msg)
 {
+    const char *err = dlerror();
+
     GDO_UNUSED_REF(msg);
-    _gdo_save_to_errbuf(dlerror());
+    /* dlsym() may return NULL without setting an error */
+    _gdo_save_to_errbuf(err ? err : "unknown error");
 }
 
 /* sets the "no library was loaded" error message */
diff --git a/src/templates/cxx.cpp b/src/templates/cxx.cpp
index 9ec60ff..96ca9e3 100644
--- a/src/templates/cxx.cpp
+++ b/src/templates/cxx.cpp
@@ -338,7 +338,9 @@ void gdo::dl::clear_error()
 void gdo::dl::save_error(const std::string&)
 {
     const char *ptr = ::dlerror();
-    m_errmsg = ptr ? ptr : "";
+
+    /* dlsym() may return NULL without setting an error */
+    m_errmsg = ptr ? ptr : "unknown error";
 }
 
 
-- 
2.43.0


From 38e46d6ce4513dfdbcf7e8a0cec8a71666006964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:43 +0000
Subject: [PATCH 36/56] fix: auto-loading hid the reason why the library could
 not be loaded

---
 src/templates/c.c     | 13 +++++++------
 src/templates/cxx.cpp | 10 ++++------
 2 files changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/templates/c.c b/src/templates/c.c
index 870049e..debd121 100644
--- a/src/templates/c.c
+++ b/src/templates/c.c
@@ -912,6 +912,9 @@ GDO_INLINE void _gdo_print_error(const gdo_char_t *fmt, const gdo_char_t *sym, c
 GDO_LINKAGE void _gdo_wrap_check_loaded(void *symptr, int load, const gdo_char_t *sym)
 {
     const gdo_char_t *msg;
+#ifdef GDO_ENABLE_AUTOLOAD
+    bool loaded;
+#endif
 
     /* symbol was already loaded */
     if (symptr != NULL) {
@@ -922,21 +925,19 @@ GDO_LINKAGE void _gdo_wrap_check_loaded(void *symptr, int load, const gdo_char_t
     /* set auto-release, ignore errors */
     gdo_enable_autorelease();
 
-    /* load library */
-    if (!gdo_lib_is_loaded()) {
-        gdo_load_lib();
-    }
+    /* load library; keep the error message if this fails */
+    loaded = (gdo_lib_is_loaded() || gdo_load_lib());
 
 # ifdef GDO_ENABLE_AUTOLOAD_LAZY
     /* load a specific symbol */
-    if (gdo_load_symbol(load)) {
+    if (loaded && gdo_load_symbol(load)) {
         return;
     }
 # else
     GDO_UNUSED_REF(load);
 
     /* load all symbols */
-    if (gdo_load_all_symbols()) {
+    if (loaded && gdo_load_all_symbols()) {
         return;
     }
 # endif
diff --git a/src/templates/cxx.cpp b/src/templates/cxx.cpp
index 96ca9e3..1c728b2 100644
--- a/src/templates/cxx.cpp
+++ b/src/templates/cxx.cpp
@@ -1019,19 +1019,17 @@ namespace gdo
 
 #ifdef GDO_ENABLE_AUTOLOAD
 
-            /* load library */
-            if (!_loader.lib_loaded()) {
-                _loader.load();
-            }
+            /* load library; keep the error message if this fails */
+            const bool loaded = (_loader.lib_loaded() || _loader.load());
 
 # ifdef GDO_ENABLE_AUTOLOAD_LAZY
             /* load a specific symbol */
-            if (_loader.load_symbol(load)) {
+            if (loaded && _loader.load_symbol(load)) {
                 return;
             }
 # else
             /* load all symbols */
-            if (_loader.load_all_symbols()) {
+            if (loaded && _loader.load_all_symbols()) {
                 return;
             }
 
-- 
2.43.0


From ce5874b7c719ec8510cdf88c124e6d5d6cfc54b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:23 +0000
Subject: [PATCH 37/56] fix: default library name was used as part of a printf
 format

---
 src/templates/c.c | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/templates/c.c b/src/templates/c.c
index debd121..fb75a18 100644
--- a/src/templates/c.c
+++ b/src/templates/c.c
@@ -886,24 +886,22 @@ GDO_INLINE bool _gdo_libpath_dladdr(void)
 void _gdo_noop(void) {}
 #endif
 
-GDO_INLINE void _gdo_print_error(const gdo_char_t *fmt, const gdo_char_t *sym, const gdo_char_t *msg)
+GDO_INLINE void _gdo_print_error(const gdo_char_t *prefix, const gdo_char_t *sym, const gdo_char_t *msg)
 {
 #ifdef _WIN32
 
 # ifdef GDO_USE_MESSAGE_BOX
     /* we can safely use gdo_hndl.errbuf, the last error message
      * was saved in gdo_hndl.formatted */
-    _sntprintf_s(gdo_hndl.errbuf, GDO_BUFLEN, _TRUNCATE, fmt, sym, msg);
+    _sntprintf_s(gdo_hndl.errbuf, GDO_BUFLEN, _TRUNCATE, _T("%s%s: %s"), prefix, sym, msg);
     MessageBox(NULL, gdo_hndl.errbuf, _T("Error"), MB_OK | MB_ICONERROR);
 # else
-    _ftprintf_s(stderr, fmt, sym, msg);
-    _fputtc(_T('\n'), stderr);
+    _ftprintf_s(stderr, _T("%s%s: %s\n"), prefix, sym, msg);
 # endif //GDO_USE_MESSAGE_BOX
 
 #else //!_WIN32
 
-    fprintf(stderr, fmt, sym, msg);
-    fputc('\n', stderr);
+    fprintf(stderr, "%s%s: %s\n", prefix, sym, msg);
 
 #endif //!_WIN32
 }
@@ -946,9 +944,9 @@ GDO_LINKAGE void _gdo_wrap_check_loaded(void *symptr, int load, const gdo_char_t
 
     if (_gdo_tcsstr(msg, GDO_DEFAULT_LIB)) {
         /* library name is already part of error message */
-        _gdo_print_error(_T("error: %s: %s"), sym, msg);
+        _gdo_print_error(_T("error: "), sym, msg);
     } else {
-        _gdo_print_error(_T("error: ") GDO_DEFAULT_LIB _T(": %s: %s"), sym, msg);
+        _gdo_print_error(_T("error: ") GDO_DEFAULT_LIB _T(": "), sym, msg);
     }
 
     gdo_force_free_lib();
@@ -965,7 +963,7 @@ GDO_LINKAGE void _gdo_wrap_check_loaded(void *symptr, int load, const gdo_char_t
     }
 
     GDO_UNUSED_REF(load);
-    _gdo_print_error(_T("fatal error: %s: %s"), sym, msg);
+    _gdo_print_error(_T("fatal error: "), sym, msg);
 
     abort();
 
-- 
2.43.0


From 78f46b22fd2a31f16e260121e7999e880d1471fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:31 +0000
Subject: [PATCH 38/56] fix: minimal templates: free the library handle on an
 invalid filename too

The documentation says that it is always freed on an error.
---
 src/templates/minimal.h         | 6 +++---
 src/templates/minimal_cxxeh.hpp | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/templates/minimal.h b/src/templates/minimal.h
index d42a330..6c5b8d4 100644
--- a/src/templates/minimal.h
+++ b/src/templates/minimal.h
@@ -62,15 +62,15 @@ GDO_LINKAGE void gdo_free_library(void)
  */
 GDO_LINKAGE const char *gdo_load_library_and_symbols(const char *filename)
 {
+    /* free a previously loaded library */
+    gdo_free_library();
+
     if (!filename) {
         return "filename is <NULL>";
     } else if (!*filename) {
         return "filename is empty";
     }
 
-    /* free a previously loaded library */
-    gdo_free_library();
-
     /* load library */
 #ifdef GDO_WINAPI
     gdo_hndl.handle = LoadLibraryA(filename);
diff --git a/src/templates/minimal_cxxeh.hpp b/src/templates/minimal_cxxeh.hpp
index e0532c9..4c8c548 100644
--- a/src/templates/minimal_cxxeh.hpp
+++ b/src/templates/minimal_cxxeh.hpp
@@ -101,15 +101,15 @@ namespace gdo
      */
     void load_library_and_symbols(const char *filename) noexcept(false)
     {
+        /* free a previously loaded library */
+        free_library();
+
         if (filename == NULL) {
             throw LibraryError("<NULL>");
         } else if (*filename == 0) {
             throw LibraryError("<EMPTY>");
         }
 
-        /* free a previously loaded library */
-        free_library();
-
         /* load library */
 #ifdef GDO_WINAPI
         handle = ::LoadLibraryA(filename);
-- 
2.43.0


From fd58a8fe7630c1e362a0247104c44690b9fcb1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:50 +0000
Subject: [PATCH 39/56] fix: default library names beginning with n, e or a
 were silently ignored

Only the exact mode prefixes nq:, ext: and api: select a mode. A library
with API mode but without number or name is an error.
---
 src/generate.cpp | 53 ++++++++++++++++--------------------------------
 1 file changed, 17 insertions(+), 36 deletions(-)

diff --git a/src/generate.cpp b/src/generate.cpp
index 406fcfd..615602f 100644
--- a/src/generate.cpp
+++ b/src/generate.cpp
@@ -150,50 +150,31 @@ std::string format_libname(const std::string &str, const std::string &pfx)
 {
     std::string lib_a, lib_w, out;
 
-    switch(str.front())
-    {
-    case 'N':
-    case 'n':
+    if (utils::prefixed_and_longer_case(str, "nq:")) {
         /* no quotes */
-        if (utils::prefixed_and_longer_case(str, "nq:")) {
-            lib_a = lib_w = str.substr(3);
-            break;
-        }
-        return {};
-
-    case 'E':
-    case 'e':
+        lib_a = lib_w = str.substr(3);
+    } else if (utils::prefixed_and_longer_case(str, "ext:")) {
         /* quotes + file extension macro */
-        if (utils::prefixed_and_longer_case(str, "ext:")) {
-            auto sub = str.substr(4);
-            lib_a = quote_lib(sub, false) + ' ' + pfx + "_LIBEXTA";
-            lib_w = quote_lib(sub, true)  + ' ' + pfx + "_LIBEXTW";
-            break;
-        }
-        return {};
-
-    case 'A':
-    case 'a':
+        auto sub = str.substr(4);
+        lib_a = quote_lib(sub, false) + ' ' + pfx + "_LIBEXTA";
+        lib_w = quote_lib(sub, true)  + ' ' + pfx + "_LIBEXTW";
+    } else if (utils::prefixed_and_longer_case(str, "api:")) {
         /* no quotes, API libname macro */
-        if (utils::prefixed_and_longer_case(str, "api:")) {
-            size_t pos;
-            auto sub = str.substr(4);
-
-            if (utils::find(sub, ':', pos)) {
-                /* GDO_LIBNAMEA(xxx,0) */
-                const std::string args = sub.substr(pos + 1) + ',' + sub.substr(0, pos);
-                lib_a = pfx + "_LIBNAMEA(" + args + ')';
-                lib_w = pfx + "_LIBNAMEW(" + args + ')';
-                break;
-            }
+        size_t pos;
+        auto sub = str.substr(4);
+
+        if (!utils::find(sub, ':', pos) || pos == 0 || pos + 1 == sub.size()) {
+            throw gendlopen::error("API number or library name missing: " + str);
         }
-        return {};
 
-    default:
+        /* GDO_LIBNAMEA(xxx,0) */
+        const std::string args = sub.substr(pos + 1) + ',' + sub.substr(0, pos);
+        lib_a = pfx + "_LIBNAMEA(" + args + ')';
+        lib_w = pfx + "_LIBNAMEW(" + args + ')';
+    } else {
         /* quote string */
         lib_a = quote_lib(str, false);
         lib_w = quote_lib(str, true);
-        break;
     }
 
     out = "#define " + pfx + "_HARDCODED_DEFAULT_LIBA " + lib_a + '\n' +
-- 
2.43.0


From b668cb6c1d2d68881acc0afc910708e1e092c718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:04 +0000
Subject: [PATCH 40/56] fix: %PARAM_SKIP_*% lines of templates with Windows
 line endings

---
 src/substitute.cpp | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/src/substitute.cpp b/src/substitute.cpp
index ff2e61a..b06089e 100644
--- a/src/substitute.cpp
+++ b/src/substitute.cpp
@@ -48,26 +48,20 @@ namespace /* anonymous */
     }
 
     /* check for a "%PARAM_SKIP_*%" line */
-    bool check_skip_keyword(const char *ptr, bool &param_skip_code, param::names parameter_names)
+    bool check_skip_keyword(std::string line, bool &param_skip_code, param::names parameter_names)
     {
-        const char str[] = "%PARAM_SKIP_";
-        const size_t len = sizeof(str) - 1;
+        /* remains of Windows line endings */
+        utils::delete_suffix(line, '\r');
 
-        if (strncmp(ptr, str, len) != 0) {
-            return false;
-        }
-
-        ptr += len;
-
-        if (strcmp(ptr, "REMOVE_BEGIN%") == 0) {
+        if (line == "%PARAM_SKIP_REMOVE_BEGIN%") {
             /* PARAM_SKIP_REMOVE_BEGIN */
             param_skip_code = (parameter_names == param::skip);
             return true;
-        } else if (strcmp(ptr, "USE_BEGIN%") == 0) {
+        } else if (line == "%PARAM_SKIP_USE_BEGIN%") {
             /* PARAM_SKIP_USE_BEGIN */
             param_skip_code = (parameter_names != param::skip);
             return true;
-        } else if (strcmp(ptr, "END%") == 0) {
+        } else if (line == "%PARAM_SKIP_END%") {
             /* PARAM_SKIP_END */
             param_skip_code = false;
             return true;
@@ -298,7 +292,7 @@ size_t gendlopen::substitute_line(const template_t &line, bool &param_skip_code)
 
     /* check if we have to comment out lines between
      * "%PARAM_SKIP_*_BEGIN%" and "%PARAM_SKIP_END%" */
-    if (line.maybe_keyword && check_skip_keyword(line.data.c_str(), param_skip_code, m_parameter_names)) {
+    if (line.maybe_keyword && check_skip_keyword(line.data, param_skip_code, m_parameter_names)) {
         if (!param_skip_code && m_line_directive) {
             /* +1 to compensate for the removed %PARAM_SKIP_* line */
             save::ofs << "#line " << (m_substitute_lineno + 1) << '\n';
-- 
2.43.0


From bbbd9fca02eddec8bdbe6677b6ea845d38fe5a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:58 +0000
Subject: [PATCH 41/56] fix: -dump-templates wrote its messages into a template
 file if standard output was closed

---
 src/data.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data.cpp b/src/data.cpp
index c31b7c7..7213735 100644
--- a/src/data.cpp
+++ b/src/data.cpp
@@ -115,12 +115,12 @@ namespace /* anonymous */
         utils::append_missing_separator(path);
         path += filename;
 
+        std::cout << "saving " << path << std::endl;
+
         if (!ofs.open(path)) {
             throw gendlopen::error(std::string("failed to open file for writing: ") + path);
         }
 
-        std::cout << "saving " << path << std::endl;
-
         /* skip initial line directive, it's not part of the template file */
         if (list->data.starts_with("#line 1 \"<built-in>/")) {
             list++;
-- 
2.43.0


From 5f0411a9ce74bfda4530bae2ea6bc50bafdf6495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:35 +0000
Subject: [PATCH 42/56] fix: quadratic run time on long runs of empty lines or
 comments

---
 src/lex.l    |  11 +-
 src/lex.yy.c | 576 ++++++++++++++++++++++++++++-----------------------
 2 files changed, 330 insertions(+), 257 deletions(-)

diff --git a/src/lex.l b/src/lex.l
index 1599ff5..3f6b5d8 100644
--- a/src/lex.l
+++ b/src/lex.l
@@ -51,8 +51,12 @@ parmvar             ^({col})?[| ]" "[|`]"-"({col})?({col})?"ParmVarDecl"({col})?
 option              ^({bom})?"%option"/[[:space:]]
 optstr              [^[:space:]]+
 
-c_comment           "/*"([^*]|"*"+[^*/])*"*"+"/"
-preproc             ^({bom})?([[:space:]]|{c_comment})*"#"
+ws                  [ \t\r\v\f]
+stars               "*"("*"|{split}|"\\"{ws}*"*")*
+c_comment           "/"({split})?"*"([^*]|{stars}([^*/\\]|"\\"{ws}*[^*\n \t\r\v\f]))*{stars}"/"
+ignored             ([[:space:]]|{c_comment})
+preproc             {ignored}*"\n"{ignored}*"#"
+preproc_bol         ^({bom})?{ignored}*"#"
 
 literal             \"([^"\\\n]|\\[^\n]|{split})*\"|'([^'\\\n]|\\[^\n]|{split})*'
 
@@ -96,6 +100,7 @@ other               [*,()\[\]]
 <C_COMMENT>.                { }
 
 {preproc}                   { BEGIN(PRE); }
+{preproc_bol}               { BEGIN(PRE); }
 <PRE>"/*"                   { BEGIN(PRE_COMMENT); /* C comment within PRE line */ }
 <PRE>"/"{split}"*"          { BEGIN(PRE_COMMENT); /* C comment within PRE line */ }
 <PRE>"//"                   { BEGIN(COMMENT); /* simple comment */ }
@@ -111,7 +116,7 @@ other               [*,()\[\]]
 <PRE_COMMENT>.              { }
 
 {bom}                       { /* UTF-8 byte order mark */ }
-[[:space:]]                 { }
+{ignored}+                  { /* all at once, or else it takes quadratic time */ }
 
 "extern"                    { /* ignore "extern" keyword */ }
 "struct"                    { return LEX_STRUCT; }
diff --git a/src/lex.yy.c b/src/lex.yy.c
index 8ce652c..d838ad9 100644
--- a/src/lex.yy.c
+++ b/src/lex.yy.c
@@ -371,8 +371,8 @@ static void yynoreturn yy_fatal_error ( const char* msg  );
 	(yy_hold_char) = *yy_cp; \
 	*yy_cp = '\0'; \
 	(yy_c_buf_p) = yy_cp;
-#define YY_NUM_RULES 51
-#define YY_END_OF_BUFFER 52
+#define YY_NUM_RULES 52
+#define YY_END_OF_BUFFER 53
 /* This struct is not used in this scanner,
    but its presence is necessary. */
 struct yy_trans_info
@@ -380,37 +380,44 @@ struct yy_trans_info
 	flex_int32_t yy_verify;
 	flex_int32_t yy_nxt;
 	};
-static const flex_int16_t yy_accept[286] =
+static const flex_int16_t yy_accept[346] =
     {   0,
         0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
-        0,    0,    0,    0,   52,   50,   36,   36,   50,   50,
-       43,   50,   50,   42,   48,   47,   42,   42,   42,   42,
-       45,   46,   50,   36,   36,   50,   22,   50,   50,   42,
-       50,    5,    4,    5,    5,    5,    5,    8,   10,    9,
-        8,   15,   14,   15,   21,   20,   21,   30,   29,   30,
-       30,   30,   30,   34,   33,   34,    0,   49,    0,    0,
-        0,    0,   16,   11,    0,   42,   42,   42,   42,   42,
-       42,    0,    0,   22,    0,    0,    0,   16,   42,    0,
-        0,    0,    0,    8,    0,    7,    0,   13,   18,    0,
-
-        0,   27,    0,    0,    0,   23,   25,    0,    0,   28,
-       31,    0,    0,    0,   44,    0,    0,   42,   42,   42,
-       42,   42,   35,    0,    0,    0,    0,    0,    0,   42,
-       35,    0,    0,    0,    0,    0,    0,    0,    0,    0,
-        0,    0,    0,    0,    0,   17,   12,   40,   42,   42,
-       42,   42,    0,    0,   42,    0,    0,    0,    0,    0,
-        0,    0,    0,    0,   19,   24,   26,   32,   42,   42,
-       42,   39,    0,    0,   42,    0,    0,    0,    0,    0,
-        0,   37,   38,   42,    0,    0,   42,    0,    0,    0,
-        0,    0,   41,    0,    0,   42,    0,    0,    0,    0,
-
-        0,    0,    0,    6,   42,    0,    0,    0,    0,    0,
-        0,    0,   42,    0,    0,    0,    0,    0,   42,    0,
-        0,    0,    0,    0,    0,   42,    0,    0,    0,    0,
-       42,    0,    0,    0,    2,    0,   42,    0,    0,    2,
-        0,   42,    0,    0,    0,   42,    0,    0,    0,    0,
-       42,    0,    0,    0,   42,    0,    0,    0,   42,    0,
-        0,    3,    0,   42,    0,    3,    0,    0,    0,    0,
+        0,    0,    0,    0,   53,   51,   37,   37,   51,   51,
+       44,   51,   51,   43,   49,   48,   43,   43,   43,   43,
+       46,   47,   51,   37,   37,   51,   23,   51,   51,   43,
+       51,    5,    4,    5,    5,    5,    5,    8,   10,    9,
+        8,   15,   14,   15,   21,   20,   21,   31,   30,   31,
+       31,   31,   31,   35,   34,   35,   37,   37,    0,   37,
+       37,   22,    0,    0,   50,    0,    0,    0,    0,   16,
+       11,    0,   43,   43,   43,   43,   43,   43,    0,   37,
+       37,   23,    0,   37,   37,   22,    0,    0,    0,   16,
+
+        0,   43,    0,    0,    0,    0,    8,    0,    7,    0,
+       13,   18,    0,    0,   28,    0,    0,    0,   24,   26,
+        0,    0,   29,   32,    0,    0,    0,    0,    0,    0,
+        0,   45,    0,    0,    0,    0,   43,   43,   43,   43,
+       43,   36,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,   43,   36,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,    0,    0,    0,   17,   12,   41,
+       43,   43,   43,   43,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,   17,   43,    0,    0,    0,    0,
+
+        0,    0,    0,    0,    0,    0,    0,   19,   25,   27,
+       33,    0,    0,    0,   43,   43,   43,   40,    0,    0,
+        0,    0,    0,   43,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,   38,   39,   43,    0,    0,    0,   43,
+        0,    0,    0,    0,    0,    0,    0,    0,    0,   42,
+        0,    0,   43,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    6,   43,    0,    0,    0,    0,    0,    0,
+        0,    0,   43,    0,    0,    0,    0,    0,   43,    0,
+        0,    0,    0,    0,    0,   43,    0,    0,    0,    0,
+       43,    0,    0,    0,    2,    0,   43,    0,    0,    2,
+
+        0,   43,    0,    0,    0,   43,    0,    0,    0,    0,
+       43,    0,    0,    0,   43,    0,    0,    0,   43,    0,
+        0,    3,    0,   43,    0,    3,    0,    0,    0,    0,
         0,    0,    0,    0,    0,    0,    0,    0,    1,    0,
         1,    0,    0,    0,    0
     } ;
@@ -457,83 +464,95 @@ static const YY_CHAR yy_meta[52] =
         1
     } ;
 
-static const flex_int16_t yy_base[302] =
+static const flex_int16_t yy_base[366] =
     {   0,
-        0,   50,  542,   56,   60,   64,   53,   65,   67,   68,
-       79,   80,   87,   93,  544,  546,  546,  546,   68,   72,
-      546,  530,   86,    0,  546,  546,   65,  500,  496,  503,
-      546,  546,  490,  109,  115,  512,  546,  499,   94,  496,
-      486,  546,  546,  508,  528,  520,  114,    0,  546,  546,
-      122,  546,  546,  128,  546,  546,  101,  546,  546,  126,
-      125,  124,  134,  546,  546,  127,  134,  546,  140,  135,
-      144,  518,  546,  546,  153,    0,  487,  487,  488,  488,
-      492,  475,  161,  546,  513,  154,  484,  511,  492,  470,
-      157,  120,  155,    0,  176,  546,  180,  546,  546,  184,
-
-      171,  546,  189,  175,  194,  546,  546,  198,  202,  546,
-      546,  206,  210,  215,  546,  220,   61,  483,  486,  474,
-      484,  477,  546,  503,  211,  490,  470,  500,  146,  473,
-      246,  216,  216,  497,  482,  464,  477,  233,  491,  253,
-      259,  238,  256,  269,  490,  546,  546,    0,  463,  472,
-      470,  463,  459,  464,  456,  470,  457,  489,  481,  183,
-      235,  260,  455,  451,  546,  546,  546,  546,  453,  447,
-      456,    0,  458,  448,  450,  458,  454,  266,  269,  452,
-      461,    0,    0,  447,  442,  441,  448,  272,  436,  449,
-      432,  441,    0,  431,  290,  429,  282,  262,  434,  288,
-
-      435,  438,  432,  546,  431,  435,  432,  294,  185,  411,
-      410,  412,  402,  297,  408,  396,   72,  363,  367,  300,
-      381,  361,  374,  384,  364,  373,  375,  304,  350,  355,
-      355,  359,  310,  225,    0,  353,  355,  358,  353,    0,
-      354,  331,  337,  322,  333,  349,  241,  326,  362,  332,
-      325,  330,  330,  302,  305,  332,  290,  312,  296,  335,
-      274,    0,  297,  296,  302,    0,  261,  259,  250,  338,
-      199,  344,  175,  348,  209,  302,  360,  318,    0,  139,
-        0,  366,  370,  145,  546,  406,  410,  414,  418,  422,
-      426,  430,  434,  106,  438,  442,  446,  450,  454,  458,
-
-      462
+        0,   50,  737,   56,   60,   64,   53,   65,   67,   68,
+       79,   80,   87,   93,  739,  741,   97,  107,   68,   88,
+      741,  725,  102,    0,  741,  741,   80,  695,  691,  698,
+      741,  741,  685,  120,  128,  707,  741,  694,  125,  691,
+      681,  741,  741,  703,  723,  715,  114,    0,  741,  741,
+      135,  741,  741,  141,  741,  741,   91,  741,  741,  114,
+      123,  134,  151,  741,  741,  133,  160,  164,  146,  174,
+      180,  741,  148,  122,  741,  187,  159,  193,  713,  714,
+      741,  197,    0,  681,  681,  682,  682,  686,  669,  201,
+      207,  741,  153,  215,  221,  741,  180,  215,  679,  706,
+
+      231,  687,  665,  222,  123,  180,    0,  238,  741,  242,
+      741,  741,  247,  166,  741,  251,  233,  259,  741,  741,
+      263,  267,  741,  741,  271,  703,  275,  702,  279,  283,
+      288,  741,  701,  281,  296,   61,  675,  678,  666,  676,
+      669,  741,  695,  300,  694,  304,  296,  681,  661,  691,
+      303,  316,  144,  664,  331,  307,  220,  688,  673,  655,
+      668,  323,  682,  344,  339,  350,  202,  354,  681,  358,
+      683,  682,  351,  365,  681,  358,  371,  680,  741,    0,
+      650,  659,  657,  650,  378,  675,  674,  373,  386,  673,
+      643,  648,  379,  392,  670,  639,  402,  653,  640,  200,
+
+      672,  664,  282,  253,  395,  638,  634,  741,  741,  741,
+      741,  387,  415,  419,  636,  630,  638,    0,  388,  430,
+      637,  624,  434,  603,  623,  441,  604,  600,  412,  275,
+      596,  602,  447,    0,    0,  561,  451,  556,  555,  562,
+      579,  446,  461,  577,  452,  547,  560,  543,  552,    0,
+      542,  469,  540,  464,  474,  465,  336,  545,  477,  546,
+      548,  542,  741,  538,  484,  545,  541,  481,   56,  527,
+      528,  533,  518,  487,  526,  513,  479,  507,  453,  490,
+      448,  425,  435,  444,  421,  427,  427,  493,  398,  402,
+      401,  402,  499,  495,    0,  388,  389,  389,  387,    0,
+
+      384,  354,  357,  503,  349,  359,  507,  515,  372,  341,
+      332,  325,  322,  289,  299,  521,  283,  300,  281,  525,
+      517,    0,  272,  520,  257,    0,  241,  237,  244,  528,
+      220,  531,  202,  537,  214,  523,  543,  529,    0,  171,
+        0,  553,  559,  103,  741,  595,  599,  603,  607,  611,
+      615,  619,  623,   72,  627,  631,  635,  639,  643,  647,
+      651,  655,  659,  663,  667
     } ;
 
-static const flex_int16_t yy_def[302] =
+static const flex_int16_t yy_def[366] =
     {   0,
-      285,    1,  286,  286,  287,  287,  288,  288,  289,  289,
-      290,  290,  291,  291,  285,  285,  285,  285,  292,  293,
-      285,  285,  285,  294,  285,  285,  294,  294,  294,  294,
-      285,  285,  285,  285,  285,  285,  285,  285,  285,  294,
-      285,  285,  285,  285,  285,  285,  285,  295,  285,  285,
-      295,  285,  285,  285,  285,  285,  285,  285,  285,  296,
-      297,  285,  285,  285,  285,  285,  292,  285,  292,  293,
-      293,  285,  285,  285,  285,  294,  294,  294,  294,  294,
-      294,  285,  285,  285,  285,  285,  285,  298,  294,  285,
-      285,  285,  285,  295,  285,  285,  285,  285,  285,  285,
-
-      296,  285,  296,  297,  297,  285,  285,  285,  285,  285,
-      285,  285,  292,  293,  285,  285,  285,  294,  294,  294,
-      294,  294,  285,  298,  285,  285,  285,  298,  298,  294,
-      285,  285,  285,  285,  285,  285,  285,  285,  285,  296,
-      297,  285,  285,  285,  285,  285,  285,  294,  294,  294,
-      294,  294,  285,  285,  294,  285,  285,  285,  285,  285,
-      285,  285,  285,  285,  285,  285,  285,  285,  294,  294,
-      294,  294,  285,  285,  294,  285,  285,  285,  285,  285,
-      285,  294,  294,  294,  285,  285,  294,  285,  285,  285,
-      285,  285,  294,  285,  285,  294,  285,  285,  285,  285,
-
-      285,  285,  285,  285,  294,  285,  285,  285,  285,  285,
-      285,  285,  294,  285,  285,  285,  285,  285,  294,  285,
-      285,  285,  285,  285,  285,  294,  285,  285,  285,  285,
-      294,  285,  285,  285,  299,  285,  294,  285,  285,  299,
-      285,  294,  285,  285,  285,  294,  285,  285,  285,  285,
-      294,  285,  285,  285,  294,  285,  285,  285,  294,  285,
-      285,  300,  285,  294,  285,  300,  285,  285,  285,  285,
-      285,  285,  285,  285,  285,  285,  285,  285,  301,  285,
-      301,  285,  285,  285,    0,  285,  285,  285,  285,  285,
-      285,  285,  285,  285,  285,  285,  285,  285,  285,  285,
-
-      285
+      345,    1,  346,  346,  347,  347,  348,  348,  349,  349,
+      350,  350,  351,  351,  345,  345,  345,  345,  352,  353,
+      345,  345,  345,  354,  345,  345,  354,  354,  354,  354,
+      345,  345,  345,  345,  345,  345,  345,  345,  345,  354,
+      345,  345,  345,  345,  345,  345,  345,  355,  345,  345,
+      355,  345,  345,  345,  345,  345,  345,  345,  345,  356,
+      357,  345,  345,  345,  345,  345,  345,  345,  345,  345,
+      345,  345,  345,  352,  345,  352,  353,  353,  345,  358,
+      345,  345,  354,  354,  354,  354,  354,  354,  345,  345,
+      345,  345,  345,  345,  345,  345,  345,  345,  345,  359,
+
+      345,  354,  345,  345,  345,  345,  355,  345,  345,  345,
+      345,  345,  345,  356,  345,  356,  357,  357,  345,  345,
+      345,  345,  345,  345,  345,  358,  345,  360,  345,  352,
+      353,  345,  358,  358,  345,  345,  354,  354,  354,  354,
+      354,  345,  359,  345,  361,  345,  345,  345,  345,  359,
+      359,  345,  345,  354,  345,  345,  345,  345,  345,  345,
+      345,  345,  345,  356,  357,  345,  345,  345,  345,  345,
+      345,  360,  360,  345,  345,  358,  358,  358,  345,  354,
+      354,  354,  354,  354,  345,  345,  361,  361,  345,  345,
+      345,  345,  359,  359,  359,  354,  345,  345,  345,  345,
+
+      345,  345,  345,  345,  345,  345,  345,  345,  345,  345,
+      345,  360,  360,  358,  354,  354,  354,  354,  361,  361,
+      345,  345,  359,  354,  362,  345,  345,  345,  345,  345,
+      345,  345,  360,  354,  354,  354,  361,  345,  345,  354,
+      362,  362,  345,  345,  345,  345,  345,  345,  345,  354,
+      345,  345,  354,  362,  362,  345,  345,  345,  345,  345,
+      345,  345,  345,  354,  362,  345,  345,  345,  345,  345,
+      345,  345,  354,  345,  345,  345,  345,  345,  354,  345,
+      345,  345,  345,  345,  345,  354,  345,  345,  345,  345,
+      354,  345,  345,  345,  363,  345,  354,  345,  345,  363,
+
+      345,  354,  345,  345,  345,  354,  345,  345,  345,  345,
+      354,  345,  345,  345,  354,  345,  345,  345,  354,  345,
+      345,  364,  345,  354,  345,  364,  345,  345,  345,  345,
+      345,  345,  345,  345,  345,  345,  345,  345,  365,  345,
+      365,  345,  345,  345,    0,  345,  345,  345,  345,  345,
+      345,  345,  345,  345,  345,  345,  345,  345,  345,  345,
+      345,  345,  345,  345,  345
     } ;
 
-static const flex_int16_t yy_nxt[598] =
+static const flex_int16_t yy_nxt[793] =
     {   0,
        16,   17,   18,   16,   17,   19,   16,   16,   20,   21,
        21,   16,   22,   23,   24,   24,   25,   26,   24,   24,
@@ -542,68 +561,90 @@ static const flex_int16_t yy_nxt[598] =
        28,   29,   30,   24,   24,   31,   16,   32,   16,   16,
        33,   34,   35,   36,   34,   53,   37,   38,   43,   44,
        45,   49,   50,   39,   49,   49,   50,   53,   49,   56,
-       56,  146,   40,   68,  147,  223,  224,   57,   57,   54,
-       68,   59,   59,   46,   60,   60,   51,   61,   61,   65,
-       51,   54,   62,   62,   69,   65,   73,   66,   71,   74,
-
-       41,   77,   47,   66,   88,   63,   63,   74,   78,   76,
-       83,   83,   75,   83,   99,   84,   83,   83,   92,   83,
-       75,   84,   85,   95,   96,   93,   95,  100,   85,   97,
-       98,  102,   97,  102,  106,  109,  110,  107,  109,   68,
-      111,  113,   67,   68,  113,  114,   70,  134,  114,  269,
-      108,  105,  103,  112,  116,  117,  129,  116,  135,   83,
-       69,   71,   83,   83,  282,   83,  134,   84,  125,  125,
-      125,  132,  132,  132,   85,  136,  102,   95,   96,  137,
-       95,   97,   98,  102,   97,  138,  139,   92,  138,  126,
-      140,  101,  133,  140,   93,  141,  104,  103,  141,  142,
-
-      143,  105,  142,  109,  110,  136,  109,  144,  145,  137,
-      144,  113,   67,  253,  113,   68,  114,   70,  279,  114,
-      158,  116,  117,   68,  116,  125,  125,  125,  239,  224,
-      132,  132,  132,  276,  138,  139,   69,  138,  176,  142,
-      143,   71,  142,  159,  252,  253,  126,   83,   83,  156,
-       83,  133,   84,  157,  140,  101,  177,  140,  102,   85,
-      141,  104,  160,  141,  273,  206,  166,  102,  153,  167,
-      144,  145,  190,  144,  178,  178,  178,  265,  253,  103,
-      178,  178,  178,  177,  272,  105,  197,  197,  197,  136,
-      271,  204,  204,  137,  204,  179,  197,  197,  197,  268,
-
-      269,  179,  208,  208,  208,  268,  269,  198,  208,  208,
-      208,  220,  220,  220,  220,  220,  220,  198,  233,  233,
-      233,  280,  269,  209,  233,  233,  233,  270,  267,  209,
-      264,  263,  221,  262,  259,  221,  248,  248,  248,  234,
-      248,  248,  248,  258,  257,  234,  260,  260,  260,  260,
-      260,  260,  274,  274,  274,  256,  255,  249,  277,  277,
-      277,  249,  274,  274,  274,  254,  224,  261,  251,  250,
-      261,  247,  246,  275,  277,  277,  277,  245,  244,  278,
-      283,  283,  283,  275,  283,  283,  283,  243,  242,  241,
-      238,  237,  236,  235,  232,  278,  231,  230,  229,  228,
-
-      227,  284,  177,  226,  225,  284,   42,   42,   42,   42,
-       48,   48,   48,   48,   52,   52,   52,   52,   55,   55,
-       55,   55,   58,   58,   58,   58,   64,   64,   64,   64,
-       67,   67,  181,   67,   70,   70,  222,   70,   94,  219,
-      218,   94,  101,  101,  217,  101,  104,  104,  216,  104,
-      128,  128,  128,  128,  240,  240,  215,  240,  266,  266,
-      214,  266,  281,  281,  213,  281,  212,  211,  210,  207,
-      205,  203,  202,  201,  200,  199,  196,  195,  194,  193,
-      192,  191,  189,  188,  187,  186,  185,  184,  183,  182,
-      181,  180,   93,   92,   87,   86,  175,  174,  173,  172,
-
-      171,  170,  169,  168,  165,  164,  163,  162,  161,  155,
-      129,  154,  153,  129,  152,  151,  150,  149,  148,  131,
-      130,  129,  127,  124,  123,  122,  121,  120,  119,  118,
-      115,   93,   92,   91,   90,   89,   87,   86,   82,   81,
-       80,   79,   72,  285,   43,   15,  285,  285,  285,  285,
-      285,  285,  285,  285,  285,  285,  285,  285,  285,  285,
-      285,  285,  285,  285,  285,  285,  285,  285,  285,  285,
-      285,  285,  285,  285,  285,  285,  285,  285,  285,  285,
-      285,  285,  285,  285,  285,  285,  285,  285,  285,  285,
-      285,  285,  285,  285,  285,  285,  285
+       56,  178,   40,   75,  179,   83,  160,   57,   57,   54,
+      161,   59,   59,   46,   60,   60,   51,   61,   61,   65,
+       51,   54,   62,   62,   76,   65,   75,   66,   67,   68,
+
+       41,   67,   47,   66,  112,   63,   63,  329,   70,   71,
+       69,   70,   80,   72,   78,   81,   84,  113,  105,  115,
+       73,   90,   91,   85,   90,  106,   92,   75,   82,   94,
+       95,  115,   94,   93,   96,  100,  108,  109,   81,  108,
+      116,   97,  110,  111,  119,  110,  124,  120,   76,  118,
+      158,  101,  122,  123,  195,  122,  126,  179,  128,  125,
+      121,   67,   68,  143,   67,   70,   71,   75,   70,  158,
+       72,  115,  127,   69,  129,   70,   71,   73,   70,  144,
+       72,   70,   71,  159,   70,   78,   72,   73,  130,   74,
+      145,  130,  116,   73,  131,   77,  342,  131,  135,  136,
+
+      160,  135,   90,   91,  161,   90,  146,   92,   94,   95,
+      225,   94,  209,   96,   93,  210,   94,   95,  313,   94,
+       97,   96,   94,   95,  201,   94,  226,   96,   97,  147,
+      147,  147,  152,  153,   97,  152,  156,  156,  156,  108,
+      109,  115,  108,  110,  111,  339,  110,  202,  162,  163,
+      148,  162,  164,  114,  336,  164,  227,  157,  333,  118,
+      165,  117,  332,  165,  166,  167,  203,  166,  122,  123,
+      331,  122,  168,  169,  228,  168,  170,  171,  247,  170,
+      174,  175,  330,  174,  130,   74,  105,  130,   75,  131,
+       77,  176,  131,  106,   67,  160,   75,  135,  136,  161,
+
+      135,  185,  186,  327,  185,  189,  190,  177,  189,   76,
+      147,  147,  147,  193,   78,  324,   90,  152,  153,  323,
+      152,  156,  156,  156,  162,  163,  322,  162,  319,  194,
+      318,  148,  197,  197,  198,  197,  317,   92,  199,  266,
+      165,  117,  157,  165,  200,  164,  114,  115,  164,  115,
+      316,  166,  167,  191,  166,  168,  169,  228,  168,  170,
+      171,  212,  170,  315,   70,  118,  174,  175,  176,  174,
+      116,   67,  214,  176,  314,  214,  284,  213,  311,  185,
+      186,  176,  185,  219,  177,  310,   94,  189,  190,  193,
+      189,  307,   90,  223,  193,  306,  223,  212,  219,  220,
+
+       70,   94,  193,  197,  197,  194,  197,  305,   92,  229,
+      229,  229,  304,  213,  220,  200,  233,  212,  303,  233,
+      214,  176,  302,  214,  301,  212,  229,  229,  229,  176,
+      230,  237,  219,  298,  237,  223,  193,  297,  223,  296,
+      219,  295,  243,  244,  193,  243,  292,  230,  233,  212,
+      291,  233,  237,  219,  290,  237,  254,  212,  289,  197,
+      288,  219,  243,  244,  287,  243,  256,  256,  256,  228,
+      263,  263,  255,  263,  254,  265,  254,  197,  265,  256,
+      256,  256,  283,  284,  254,  265,  254,  257,  265,  286,
+      255,  268,  268,  268,  254,  268,  268,  268,  299,  284,
+
+      257,  280,  280,  280,  280,  280,  280,  293,  293,  293,
+      312,  313,  269,  293,  293,  293,  269,  308,  308,  308,
+      325,  313,  281,  328,  329,  281,  328,  329,  294,  308,
+      308,  308,  340,  329,  294,  320,  320,  320,  309,  320,
+      320,  320,  334,  334,  334,  337,  337,  337,  285,  232,
+      309,  334,  334,  334,  282,  279,  321,  337,  337,  337,
+      321,  278,  277,  335,  276,  275,  338,  343,  343,  343,
+      274,  273,  335,  343,  343,  343,  272,  271,  338,  270,
+      267,  264,  262,  261,  260,  259,  258,  225,  344,  242,
+      253,  252,  251,  250,  344,   42,   42,   42,   42,   48,
+
+       48,   48,   48,   52,   52,   52,   52,   55,   55,   55,
+       55,   58,   58,   58,   58,   64,   64,   64,   64,   74,
+       74,  249,   74,   77,   77,  248,   77,  107,  246,  245,
+      107,  114,  114,  242,  114,  117,  117,  240,  117,  133,
+      133,  133,  133,  150,  150,  150,  150,  172,  172,  172,
+      172,  187,  187,  187,  187,  241,  241,  241,  241,  300,
+      300,  239,  300,  326,  326,  238,  326,  341,  341,  236,
+      341,  235,  234,  232,  231,  106,  105,   99,   98,  224,
+      151,  222,  221,  145,  188,  143,  218,  217,  216,  215,
+      134,  128,  173,  126,  211,  208,  207,  206,  205,  204,
+
+      196,  151,  192,  191,  188,  151,  184,  183,  182,  181,
+      180,  134,  173,  134,  155,  154,  151,  149,  142,  141,
+      140,  139,  138,  137,  134,  132,  106,  105,  104,  103,
+      102,   99,   98,   89,   88,   87,   86,   79,  345,   43,
+       15,  345,  345,  345,  345,  345,  345,  345,  345,  345,
+      345,  345,  345,  345,  345,  345,  345,  345,  345,  345,
+      345,  345,  345,  345,  345,  345,  345,  345,  345,  345,
+      345,  345,  345,  345,  345,  345,  345,  345,  345,  345,
+      345,  345,  345,  345,  345,  345,  345,  345,  345,  345,
+      345,  345
 
     } ;
 
-static const flex_int16_t yy_chk[598] =
+static const flex_int16_t yy_chk[793] =
     {   0,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
@@ -612,73 +653,95 @@ static const flex_int16_t yy_chk[598] =
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    2,    2,    2,    2,    7,    2,    2,    4,    4,
         4,    5,    5,    2,    5,    6,    6,    8,    6,    9,
-       10,  117,    2,   19,  117,  217,  217,    9,   10,    7,
-       20,   11,   12,    4,   11,   12,    5,   11,   12,   13,
-        6,    8,   11,   12,   19,   14,   23,   13,   20,   23,
-
-        2,   27,    4,   14,   39,   11,   12,   39,   27,  294,
-       34,   34,   23,   34,   57,   34,   35,   35,   47,   35,
-       39,   35,   34,   51,   51,   47,   51,   57,   35,   54,
-       54,   60,   54,   61,   62,   63,   63,   62,   63,   67,
-       66,   69,   69,   70,   69,   71,   71,   92,   71,  284,
-       62,   61,   60,   66,   75,   75,  129,   75,   93,  129,
-       67,   70,   83,   83,  280,   83,   92,   83,   86,   86,
-       86,   91,   91,   91,   83,   93,  101,   95,   95,   93,
-       95,   97,   97,  104,   97,  100,  100,  160,  100,   86,
-      103,  103,   91,  103,  160,  105,  105,  101,  105,  108,
-
-      108,  104,  108,  109,  109,  209,  109,  112,  112,  209,
-      112,  113,  113,  275,  113,  113,  114,  114,  273,  114,
-      133,  116,  116,  114,  116,  125,  125,  125,  234,  234,
-      132,  132,  132,  271,  138,  138,  113,  138,  161,  142,
-      142,  114,  142,  133,  247,  247,  125,  131,  131,  131,
-      131,  132,  131,  131,  140,  140,  161,  140,  140,  131,
-      141,  141,  133,  141,  269,  198,  143,  141,  131,  143,
-      144,  144,  179,  144,  162,  162,  162,  261,  261,  140,
-      178,  178,  178,  198,  268,  141,  188,  188,  188,  179,
-      267,  195,  195,  179,  195,  162,  197,  197,  197,  264,
-
-      264,  178,  200,  200,  200,  276,  276,  188,  208,  208,
-      208,  214,  214,  214,  220,  220,  220,  197,  228,  228,
-      228,  278,  278,  200,  233,  233,  233,  265,  263,  208,
-      259,  258,  214,  257,  255,  220,  244,  244,  244,  228,
-      248,  248,  248,  254,  253,  233,  256,  256,  256,  260,
-      260,  260,  270,  270,  270,  252,  251,  244,  272,  272,
-      272,  248,  274,  274,  274,  250,  249,  256,  246,  245,
-      260,  243,  242,  270,  277,  277,  277,  241,  239,  272,
-      282,  282,  282,  274,  283,  283,  283,  238,  237,  236,
-      232,  231,  230,  229,  227,  277,  226,  225,  224,  223,
-
-      222,  282,  221,  219,  218,  283,  286,  286,  286,  286,
-      287,  287,  287,  287,  288,  288,  288,  288,  289,  289,
-      289,  289,  290,  290,  290,  290,  291,  291,  291,  291,
-      292,  292,  216,  292,  293,  293,  215,  293,  295,  213,
-      212,  295,  296,  296,  211,  296,  297,  297,  210,  297,
-      298,  298,  298,  298,  299,  299,  207,  299,  300,  300,
-      206,  300,  301,  301,  205,  301,  203,  202,  201,  199,
-      196,  194,  192,  191,  190,  189,  187,  186,  185,  184,
-      181,  180,  177,  176,  175,  174,  173,  171,  170,  169,
-      164,  163,  159,  158,  157,  156,  155,  154,  153,  152,
-
-      151,  150,  149,  145,  139,  137,  136,  135,  134,  130,
-      128,  127,  126,  124,  122,  121,  120,  119,  118,   90,
-       89,   88,   87,   85,   82,   81,   80,   79,   78,   77,
-       72,   46,   45,   44,   41,   40,   38,   36,   33,   30,
-       29,   28,   22,   15,    3,  285,  285,  285,  285,  285,
-      285,  285,  285,  285,  285,  285,  285,  285,  285,  285,
-      285,  285,  285,  285,  285,  285,  285,  285,  285,  285,
-      285,  285,  285,  285,  285,  285,  285,  285,  285,  285,
-      285,  285,  285,  285,  285,  285,  285,  285,  285,  285,
-      285,  285,  285,  285,  285,  285,  285
+       10,  136,    2,   19,  136,  354,  269,    9,   10,    7,
+      269,   11,   12,    4,   11,   12,    5,   11,   12,   13,
+        6,    8,   11,   12,   19,   14,   20,   13,   17,   17,
+
+        2,   17,    4,   14,   57,   11,   12,  344,   18,   18,
+       17,   18,   23,   18,   20,   23,   27,   57,   47,   60,
+       18,   34,   34,   27,   34,   47,   34,   74,   23,   35,
+       35,   61,   35,   34,   35,   39,   51,   51,   39,   51,
+       60,   35,   54,   54,   62,   54,   66,   62,   74,   61,
+      105,   39,   63,   63,  153,   63,   69,  153,   73,   66,
+       62,   67,   67,   93,   67,   68,   68,   77,   68,  105,
+       68,  114,   69,   67,   73,   70,   70,   68,   70,   93,
+       70,   71,   71,  106,   71,   77,   71,   70,   76,   76,
+       97,   76,  114,   71,   78,   78,  340,   78,   82,   82,
+
+      106,   82,   90,   90,  106,   90,   97,   90,   91,   91,
+      200,   91,  167,   91,   90,  167,   94,   94,  335,   94,
+       91,   94,   95,   95,  157,   95,  200,   95,   94,   98,
+       98,   98,  101,  101,   95,  101,  104,  104,  104,  108,
+      108,  117,  108,  110,  110,  333,  110,  157,  113,  113,
+       98,  113,  116,  116,  331,  116,  204,  104,  329,  117,
+      118,  118,  328,  118,  121,  121,  157,  121,  122,  122,
+      327,  122,  125,  125,  204,  125,  127,  127,  230,  127,
+      129,  129,  325,  129,  130,  130,  203,  130,  130,  131,
+      131,  134,  131,  203,  134,  230,  131,  135,  135,  230,
+
+      135,  144,  144,  323,  144,  146,  146,  134,  146,  130,
+      147,  147,  147,  151,  131,  319,  151,  152,  152,  318,
+      152,  156,  156,  156,  162,  162,  317,  162,  315,  151,
+      314,  147,  155,  155,  155,  155,  313,  155,  155,  257,
+      165,  165,  156,  165,  155,  164,  164,  165,  164,  164,
+      312,  166,  166,  155,  166,  168,  168,  257,  168,  170,
+      170,  173,  170,  311,  173,  165,  174,  174,  176,  174,
+      164,  176,  177,  177,  310,  177,  309,  173,  306,  185,
+      185,  177,  185,  188,  176,  305,  188,  189,  189,  193,
+      189,  303,  193,  194,  194,  302,  194,  212,  219,  188,
+
+      212,  219,  194,  197,  197,  193,  197,  301,  197,  205,
+      205,  205,  299,  212,  219,  197,  213,  213,  298,  213,
+      214,  214,  297,  214,  296,  213,  229,  229,  229,  214,
+      205,  220,  220,  292,  220,  223,  223,  291,  223,  290,
+      220,  289,  226,  226,  223,  226,  287,  229,  233,  233,
+      286,  233,  237,  237,  285,  237,  242,  233,  284,  242,
+      283,  237,  243,  243,  282,  243,  245,  245,  245,  281,
+      252,  252,  242,  252,  254,  255,  255,  254,  255,  256,
+      256,  256,  277,  277,  255,  265,  265,  245,  265,  279,
+      254,  259,  259,  259,  265,  268,  268,  268,  294,  294,
+
+      256,  274,  274,  274,  280,  280,  280,  288,  288,  288,
+      307,  307,  259,  293,  293,  293,  268,  304,  304,  304,
+      321,  321,  274,  324,  324,  280,  336,  336,  288,  308,
+      308,  308,  338,  338,  293,  316,  316,  316,  304,  320,
+      320,  320,  330,  330,  330,  332,  332,  332,  278,  276,
+      308,  334,  334,  334,  275,  273,  316,  337,  337,  337,
+      320,  272,  271,  330,  270,  267,  332,  342,  342,  342,
+      266,  264,  334,  343,  343,  343,  262,  261,  337,  260,
+      258,  253,  251,  249,  248,  247,  246,  244,  342,  241,
+      240,  239,  238,  236,  343,  346,  346,  346,  346,  347,
+
+      347,  347,  347,  348,  348,  348,  348,  349,  349,  349,
+      349,  350,  350,  350,  350,  351,  351,  351,  351,  352,
+      352,  232,  352,  353,  353,  231,  353,  355,  228,  227,
+      355,  356,  356,  225,  356,  357,  357,  224,  357,  358,
+      358,  358,  358,  359,  359,  359,  359,  360,  360,  360,
+      360,  361,  361,  361,  361,  362,  362,  362,  362,  363,
+      363,  222,  363,  364,  364,  221,  364,  365,  365,  217,
+      365,  216,  215,  207,  206,  202,  201,  199,  198,  196,
+      195,  192,  191,  190,  187,  186,  184,  183,  182,  181,
+      178,  175,  172,  171,  169,  163,  161,  160,  159,  158,
+
+      154,  150,  149,  148,  145,  143,  141,  140,  139,  138,
+      137,  133,  128,  126,  103,  102,  100,   99,   89,   88,
+       87,   86,   85,   84,   80,   79,   46,   45,   44,   41,
+       40,   38,   36,   33,   30,   29,   28,   22,   15,    3,
+      345,  345,  345,  345,  345,  345,  345,  345,  345,  345,
+      345,  345,  345,  345,  345,  345,  345,  345,  345,  345,
+      345,  345,  345,  345,  345,  345,  345,  345,  345,  345,
+      345,  345,  345,  345,  345,  345,  345,  345,  345,  345,
+      345,  345,  345,  345,  345,  345,  345,  345,  345,  345,
+      345,  345
 
     } ;
 
 /* Table of booleans, true if rule could match eol. */
-static const flex_int32_t yy_rule_can_match_eol[52] =
+static const flex_int32_t yy_rule_can_match_eol[53] =
     {   0,
 0, 0, 0, 1, 0, 1, 1, 0, 1, 0, 0, 1, 1, 1, 0, 0, 1, 0, 1, 
-    1, 0, 1, 0, 1, 0, 1, 1, 1, 1, 0, 0, 1, 1, 0, 0, 1, 0, 0, 0, 
-    0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0,     };
+    1, 0, 1, 1, 0, 1, 0, 1, 1, 1, 1, 0, 0, 1, 1, 0, 0, 1, 0, 0, 
+    0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0,     };
 
 static yy_state_type yy_last_accepting_state;
 static char *yy_last_accepting_cpos;
@@ -986,13 +1049,13 @@ yy_match:
 			while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 				{
 				yy_current_state = (int) yy_def[yy_current_state];
-				if ( yy_current_state >= 286 )
+				if ( yy_current_state >= 346 )
 					yy_c = yy_meta[yy_c];
 				}
 			yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
 			++yy_cp;
 			}
-		while ( yy_current_state != 285 );
+		while ( yy_current_state != 345 );
 		yy_cp = (yy_last_accepting_cpos);
 		yy_current_state = (yy_last_accepting_state);
 
@@ -1126,96 +1189,97 @@ YY_RULE_SETUP
 { BEGIN(PRE); }
 	YY_BREAK
 case 23:
+/* rule 23 can match eol */
 YY_RULE_SETUP
-{ BEGIN(PRE_COMMENT); /* C comment within PRE line */ }
+{ BEGIN(PRE); }
 	YY_BREAK
 case 24:
-/* rule 24 can match eol */
 YY_RULE_SETUP
 { BEGIN(PRE_COMMENT); /* C comment within PRE line */ }
 	YY_BREAK
 case 25:
+/* rule 25 can match eol */
 YY_RULE_SETUP
-{ BEGIN(COMMENT); /* simple comment */ }
+{ BEGIN(PRE_COMMENT); /* C comment within PRE line */ }
 	YY_BREAK
 case 26:
-/* rule 26 can match eol */
 YY_RULE_SETUP
 { BEGIN(COMMENT); /* simple comment */ }
 	YY_BREAK
 case 27:
 /* rule 27 can match eol */
 YY_RULE_SETUP
-{ /* string or character, cannot begin a comment */ }
+{ BEGIN(COMMENT); /* simple comment */ }
 	YY_BREAK
 case 28:
 /* rule 28 can match eol */
 YY_RULE_SETUP
-{ /* line split */ }
+{ /* string or character, cannot begin a comment */ }
 	YY_BREAK
 case 29:
 /* rule 29 can match eol */
 YY_RULE_SETUP
-{ BEGIN(INITIAL); /* end */ }
+{ /* line split */ }
 	YY_BREAK
 case 30:
+/* rule 30 can match eol */
 YY_RULE_SETUP
-{ }
+{ BEGIN(INITIAL); /* end */ }
 	YY_BREAK
 case 31:
 YY_RULE_SETUP
-{ BEGIN(PRE); /* continue PRE line */ }
+{ }
 	YY_BREAK
 case 32:
-/* rule 32 can match eol */
 YY_RULE_SETUP
 { BEGIN(PRE); /* continue PRE line */ }
 	YY_BREAK
 case 33:
 /* rule 33 can match eol */
 YY_RULE_SETUP
-{ }
+{ BEGIN(PRE); /* continue PRE line */ }
 	YY_BREAK
 case 34:
+/* rule 34 can match eol */
 YY_RULE_SETUP
 { }
 	YY_BREAK
 case 35:
 YY_RULE_SETUP
-{ /* UTF-8 byte order mark */ }
+{ }
 	YY_BREAK
 case 36:
-/* rule 36 can match eol */
 YY_RULE_SETUP
-{ }
+{ /* UTF-8 byte order mark */ }
 	YY_BREAK
 case 37:
+/* rule 37 can match eol */
 YY_RULE_SETUP
-{ /* ignore "extern" keyword */ }
+{ /* all at once, or else it takes quadratic time */ }
 	YY_BREAK
 case 38:
 YY_RULE_SETUP
-{ return LEX_STRUCT; }
+{ /* ignore "extern" keyword */ }
 	YY_BREAK
 case 39:
 YY_RULE_SETUP
-{ return LEX_UNION; }
+{ return LEX_STRUCT; }
 	YY_BREAK
 case 40:
 YY_RULE_SETUP
-{ return LEX_ENUM; }
+{ return LEX_UNION; }
 	YY_BREAK
 case 41:
 YY_RULE_SETUP
-{ return LEX_TYPEDEF; }
+{ return LEX_ENUM; }
 	YY_BREAK
 case 42:
 YY_RULE_SETUP
-{ return LEX_ID; }
+{ return LEX_TYPEDEF; }
 	YY_BREAK
 case 43:
 YY_RULE_SETUP
-{ return LEX_OTHER; }
+{ return LEX_ID; }
 	YY_BREAK
 case 44:
 YY_RULE_SETUP
@@ -1223,31 +1287,35 @@ YY_RULE_SETUP
 	YY_BREAK
 case 45:
 YY_RULE_SETUP
-{ return LEX_CURLY_OPEN; }
+{ return LEX_OTHER; }
 	YY_BREAK
 case 46:
 YY_RULE_SETUP
-{ return LEX_CURLY_CLOSE; }
+{ return LEX_CURLY_OPEN; }
 	YY_BREAK
 case 47:
 YY_RULE_SETUP
-{ return LEX_EQUAL; }
+{ return LEX_CURLY_CLOSE; }
 	YY_BREAK
 case 48:
 YY_RULE_SETUP
-{ return LEX_SEMICOLON; }
+{ return LEX_EQUAL; }
 	YY_BREAK
 case 49:
-/* rule 49 can match eol */
 YY_RULE_SETUP
-{ set_illegal_char(); return LEX_ILLEGAL; }
+{ return LEX_SEMICOLON; }
 	YY_BREAK
 case 50:
+/* rule 50 can match eol */
 YY_RULE_SETUP
 { set_illegal_char(); return LEX_ILLEGAL; }
 	YY_BREAK
 case 51:
 YY_RULE_SETUP
+{ set_illegal_char(); return LEX_ILLEGAL; }
+	YY_BREAK
+case 52:
+YY_RULE_SETUP
 ECHO;
 	YY_BREAK
 case YY_STATE_EOF(INITIAL):
@@ -1554,7 +1622,7 @@ static int yy_get_next_buffer (void)
 		while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 			{
 			yy_current_state = (int) yy_def[yy_current_state];
-			if ( yy_current_state >= 286 )
+			if ( yy_current_state >= 346 )
 				yy_c = yy_meta[yy_c];
 			}
 		yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
@@ -1582,11 +1650,11 @@ static int yy_get_next_buffer (void)
 	while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 		{
 		yy_current_state = (int) yy_def[yy_current_state];
-		if ( yy_current_state >= 286 )
+		if ( yy_current_state >= 346 )
 			yy_c = yy_meta[yy_c];
 		}
 	yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
-	yy_is_jam = (yy_current_state == 285);
+	yy_is_jam = (yy_current_state == 345);
 
 		return yy_is_jam ? 0 : yy_current_state;
 }
-- 
2.43.0


From 23bf465c9bf5332e7d027d076e480eee003a2587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:51 +0000
Subject: [PATCH 43/56] fix: GDO_STATIC: the handle was declared inline
 (minimal.h) or defined twice (C code compiled as C++)

---
 src/templates/c.c       | 12 ++++++------
 src/templates/minimal.h |  8 +++++---
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/templates/c.c b/src/templates/c.c
index fb75a18..c25ff9e 100644
--- a/src/templates/c.c
+++ b/src/templates/c.c
@@ -20,11 +20,9 @@
 
 /* linkage */
 #ifdef GDO_STATIC
-# define GDO_LINKAGE      GDO_DECL
-# define GDO_OBJ_LINKAGE  GDO_OBJ_DECL
+# define GDO_LINKAGE  GDO_DECL
 #else
-# define GDO_LINKAGE      /**/
-# define GDO_OBJ_LINKAGE  /**/
+# define GDO_LINKAGE  /**/
 #endif
 
 
@@ -37,8 +35,10 @@
 #endif
 
 
-/* library handle */
-GDO_OBJ_LINKAGE gdo_handle_t gdo_hndl;
+/* library handle (already defined if GDO_STATIC is set) */
+#ifndef GDO_STATIC
+gdo_handle_t gdo_hndl;
+#endif
 
 
 /* forward declarations */
diff --git a/src/templates/minimal.h b/src/templates/minimal.h
index 6c5b8d4..7a7ccda 100644
--- a/src/templates/minimal.h
+++ b/src/templates/minimal.h
@@ -6,9 +6,11 @@
 #endif
 
 #ifdef GDO_STATIC
-# define GDO_LINKAGE  static inline
+# define GDO_LINKAGE      static inline
+# define GDO_OBJ_LINKAGE  static
 #else
-# define GDO_LINKAGE  /**/
+# define GDO_LINKAGE      /**/
+# define GDO_OBJ_LINKAGE  /**/
 #endif
 
 
@@ -29,7 +31,7 @@ typedef struct gdo_handle
 
 } gdo_handle_t;
 
-GDO_LINKAGE gdo_handle_t gdo_hndl;
+GDO_OBJ_LINKAGE gdo_handle_t gdo_hndl;
 
 
 /**
-- 
2.43.0


From a8d3a1d75b737bb5c9943ba22b4adefbcbac4fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:43 +0000
Subject: [PATCH 44/56] fix: FreeLibrary() returns any nonzero value on success

---
 src/templates/common.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/templates/common.c b/src/templates/common.c
index 183b56d..13e1a7c 100644
--- a/src/templates/common.c
+++ b/src/templates/common.c
@@ -13,7 +13,7 @@ GDO_INLINE void *_gdo_call_dlsym(gdo_hmod_t handle, const char *symbol)
 GDO_INLINE bool _gdo_call_dlclose(gdo_hmod_t handle)
 {
 #ifdef GDO_WINAPI
-    return (FreeLibrary(handle) == TRUE);
+    return (FreeLibrary(handle) != 0);
 #else
     return (dlclose(handle) == 0);
 #endif
-- 
2.43.0


From e2aa423a9b05ed798c64ba1215674347354b5838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:43 +0000
Subject: [PATCH 45/56] fix: Windows: the error of a filename which cannot be
 converted was overwritten by a stale one

---
 src/templates/c.c     | 4 ++--
 src/templates/cxx.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/templates/c.c b/src/templates/c.c
index c25ff9e..7ff35f9 100644
--- a/src/templates/c.c
+++ b/src/templates/c.c
@@ -308,8 +308,8 @@ GDO_INLINE HMODULE _gdo_load_library_ex(const gdo_char_t *filename, int flags)
         return handle;
     }
 
-    GDO_SET_LAST_ERRNO(ERROR_INVALID_NAME);
-    _gdo_save_to_errbuf("mbstowcs_s: failed to convert filename");
+    /* the caller saves the last error together with the filename */
+    SetLastError(ERROR_INVALID_NAME);
     return NULL;
 # else
     return LoadLibraryEx(filename, NULL, flags);
diff --git a/src/templates/cxx.cpp b/src/templates/cxx.cpp
index 1c728b2..34bbb71 100644
--- a/src/templates/cxx.cpp
+++ b/src/templates/cxx.cpp
@@ -199,8 +199,8 @@ HMODULE gdo::dl::load_library_ex(const std::string &filename)
             return ::LoadLibraryExW(wfilename.c_str(), NULL, m_flags);
         }
 
-        m_last_errno = ERROR_INVALID_NAME;
-        m_errmsg = "mbstowcs_s: failed to convert filename";
+        /* the caller saves the last error together with the filename */
+        ::SetLastError(ERROR_INVALID_NAME);
         return NULL;
     }
 
-- 
2.43.0


From c44b8219288c25e9614b1c4a6233cdceb07e4b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:43 +0000
Subject: [PATCH 46/56] fix: Windows: converted strings had a null character at
 the end

---
 src/templates/cxx.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/templates/cxx.cpp b/src/templates/cxx.cpp
index 34bbb71..b2f5333 100644
--- a/src/templates/cxx.cpp
+++ b/src/templates/cxx.cpp
@@ -129,6 +129,8 @@ bool gdo::dl::convert_string(const std::basic_string<T_in> &str_in, std::basic_s
 
         /* convert string */
         if (mbs_wcs_conv(&n, buf, len, str_in.c_str()) && n == len) {
+            /* remove null terminator */
+            str_out.resize(len - 1);
             return true;
         }
     }
-- 
2.43.0


From 822f358b8fe4af1ce2e809c5ba92453867c5fadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:43 +0000
Subject: [PATCH 47/56] fix: Windows: auto-loading printed a pointer instead of
 a wide library name

---
 src/templates/cxx.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/templates/cxx.cpp b/src/templates/cxx.cpp
index b2f5333..5d6e15f 100644
--- a/src/templates/cxx.cpp
+++ b/src/templates/cxx.cpp
@@ -1040,11 +1040,14 @@ namespace gdo
 
             std::string msg = _loader.error();
 
-            if (msg.find(GDO_DEFAULT_LIBA) != std::string::npos) {
+            /* narrow characters even if GDO_DEFAULT_LIB is not */
+            const std::string libname = _loader.filename();
+
+            if (msg.find(libname) != std::string::npos) {
                 /* library name is already part of error message */
                 sstr << "error: " << sym << ": " << msg;
             } else {
-                sstr << "error: " GDO_DEFAULT_LIB ": " << sym << ": " << msg;
+                sstr << "error: " << libname << ": " << sym << ": " << msg;
             }
 
             msg_callback(sstr.str().c_str());
-- 
2.43.0


From 250f230588fa4f0dc0c7353849142bd8e030685a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:06 +0000
Subject: [PATCH 48/56] fix: C++ API: the error of a missing symbol did not
 name the symbol (Windows)

---
 src/templates/cxx.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/templates/cxx.cpp b/src/templates/cxx.cpp
index 5d6e15f..645e362 100644
--- a/src/templates/cxx.cpp
+++ b/src/templates/cxx.cpp
@@ -511,7 +511,7 @@ T gdo::dl::sym_load(const char *symbol)
     T ptr = reinterpret_cast<T>(_gdo_call_dlsym(m_handle, symbol));
 
     if (!ptr) {
-        save_error();
+        save_error(symbol);
     }
 
     return ptr;
-- 
2.43.0


From dd75aa5fcd020afc6bb7b1afadfee0bd2b650c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:06 +0000
Subject: [PATCH 49/56] fix: dlfcn-win32: code using narrow characters was
 mixed with _UNICODE macros

---
 src/templates/c.c               | 15 ++++++++++-----
 src/templates/c.h               |  2 +-
 src/templates/filename_macros.h |  2 +-
 3 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/templates/c.c b/src/templates/c.c
index 7ff35f9..2987cad 100644
--- a/src/templates/c.c
+++ b/src/templates/c.c
@@ -61,7 +61,7 @@ GDO_INLINE bool _gdo_libpath_dladdr(void);
 /* strstr() / wcsstr() */
 GDO_INLINE const gdo_char_t *_gdo_tcsstr(const gdo_char_t *haystack, const gdo_char_t *needle)
 {
-#ifdef _WIN32
+#ifdef GDO_WINAPI
     return _tcsstr(haystack, needle);
 #else
     return strstr(haystack, needle);
@@ -70,7 +70,7 @@ GDO_INLINE const gdo_char_t *_gdo_tcsstr(const gdo_char_t *haystack, const gdo_c
 
 
 /* snprintf() / snwprintf() */
-#ifdef _WIN32
+#ifdef GDO_WINAPI
 # define GDO_SNPRINTF(DEST, FORMAT, ...) \
     _sntprintf_s(DEST, _countof(DEST), _TRUNCATE, FORMAT, __VA_ARGS__)
 #else
@@ -888,7 +888,7 @@ void _gdo_noop(void) {}
 
 GDO_INLINE void _gdo_print_error(const gdo_char_t *prefix, const gdo_char_t *sym, const gdo_char_t *msg)
 {
-#ifdef _WIN32
+#ifdef GDO_WINAPI
 
 # ifdef GDO_USE_MESSAGE_BOX
     /* we can safely use gdo_hndl.errbuf, the last error message
@@ -899,11 +899,16 @@ GDO_INLINE void _gdo_print_error(const gdo_char_t *prefix, const gdo_char_t *sym
     _ftprintf_s(stderr, _T("%s%s: %s\n"), prefix, sym, msg);
 # endif //GDO_USE_MESSAGE_BOX
 
-#else //!_WIN32
+#else //!GDO_WINAPI
 
+# if defined(_WIN32) && defined(GDO_USE_MESSAGE_BOX)
+    snprintf(gdo_hndl.errbuf, GDO_BUFLEN, "%s%s: %s", prefix, sym, msg);
+    MessageBoxA(NULL, gdo_hndl.errbuf, "Error", MB_OK | MB_ICONERROR);
+# else
     fprintf(stderr, "%s%s: %s\n", prefix, sym, msg);
+# endif
 
-#endif //!_WIN32
+#endif //!GDO_WINAPI
 }
 
 /* used by wrapper functions */
diff --git a/src/templates/c.h b/src/templates/c.h
index ff99f12..2849315 100644
--- a/src/templates/c.h
+++ b/src/templates/c.h
@@ -2,7 +2,7 @@
 /*                                   C API                                   */
 /*****************************************************************************/
 
-#ifdef _WIN32
+#ifdef GDO_WINAPI
 # include <tchar.h>
 #else
 # undef _T
diff --git a/src/templates/filename_macros.h b/src/templates/filename_macros.h
index 0b9b436..63e9c91 100644
--- a/src/templates/filename_macros.h
+++ b/src/templates/filename_macros.h
@@ -81,7 +81,7 @@ GDO_LIBEXTW
 /* wide/narrow character default macros */
 #undef GDO_LIBEXT
 #undef GDO_LIBNAME
-#if defined(_WIN32) && defined(_UNICODE)
+#if defined(_WIN32) && defined(_UNICODE) && !defined(GDO_USE_DLOPEN)
 # define GDO_LIBEXT              GDO_LIBEXTW
 # define GDO_LIBNAME(NAME, API)  GDO_LIBNAMEW(NAME, API)
 #else
-- 
2.43.0


From a9794be950ae01413950aec33b3ddebffed4c542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:06 +0000
Subject: [PATCH 50/56] fix: dlfcn-win32: the error message was printed into
 its own buffer

---
 src/templates/c.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/templates/c.c b/src/templates/c.c
index 2987cad..170a92f 100644
--- a/src/templates/c.c
+++ b/src/templates/c.c
@@ -902,8 +902,11 @@ GDO_INLINE void _gdo_print_error(const gdo_char_t *prefix, const gdo_char_t *sym
 #else //!GDO_WINAPI
 
 # if defined(_WIN32) && defined(GDO_USE_MESSAGE_BOX)
-    snprintf(gdo_hndl.errbuf, GDO_BUFLEN, "%s%s: %s", prefix, sym, msg);
-    MessageBoxA(NULL, gdo_hndl.errbuf, "Error", MB_OK | MB_ICONERROR);
+    /* narrow characters even if _UNICODE is defined;
+     * the last error message was saved in gdo_hndl.errbuf, don't overwrite it */
+    static char buf[GDO_BUFLEN];
+    snprintf(buf, sizeof(buf), "%s%s: %s", prefix, sym, msg);
+    MessageBoxA(NULL, buf, "Error", MB_OK | MB_ICONERROR);
 # else
     fprintf(stderr, "%s%s: %s\n", prefix, sym, msg);
 # endif
-- 
2.43.0


From 9193a9d947749b3efc72df6884cc66957f0ae993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:23 +0000
Subject: [PATCH 51/56] fix: a user's GDO_DEFAULT_LIB was ignored by
 GDO_DEFAULT_LIBA/W if the library name was set on creation

---
 src/templates/common.h | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/templates/common.h b/src/templates/common.h
index 1c892c7..cb50bd5 100644
--- a/src/templates/common.h
+++ b/src/templates/common.h
@@ -253,6 +253,16 @@ extern void *dlmopen(Lmid_t lmid, const char *path, int flags);
 # define _GDO_TARGET_WIDECHAR
 #endif
 
+/* GDO_DEFAULT_LIBA or GDO_DEFAULT_LIBW ?= GDO_DEFAULT_LIB */
+#ifdef GDO_DEFAULT_LIB
+# if !defined(GDO_DEFAULT_LIBA) && !defined(_GDO_TARGET_WIDECHAR)
+#  define GDO_DEFAULT_LIBA  GDO_DEFAULT_LIB
+# endif
+# if !defined(GDO_DEFAULT_LIBW) && defined(_GDO_TARGET_WIDECHAR)
+#  define GDO_DEFAULT_LIBW  GDO_DEFAULT_LIB
+# endif
+#endif
+
 /* GDO_DEFAULT_LIBA ?= GDO_HARDCODED_DEFAULT_LIBA */
 #if !defined(GDO_DEFAULT_LIBA) && defined(GDO_HARDCODED_DEFAULT_LIBA)
 # define GDO_DEFAULT_LIBA  GDO_HARDCODED_DEFAULT_LIBA
@@ -272,16 +282,6 @@ extern void *dlmopen(Lmid_t lmid, const char *path, int flags);
 # endif
 #endif
 
-/* GDO_DEFAULT_LIBA or GDO_DEFAULT_LIBW ?= GDO_DEFAULT_LIB */
-#ifdef GDO_DEFAULT_LIB
-# if !defined(GDO_DEFAULT_LIBA) && !defined(_GDO_TARGET_WIDECHAR)
-#  define GDO_DEFAULT_LIBA  GDO_DEFAULT_LIB
-# endif
-# if !defined(GDO_DEFAULT_LIBW) && defined(_GDO_TARGET_WIDECHAR)
-#  define GDO_DEFAULT_LIBW  GDO_DEFAULT_LIB
-# endif
-#endif
-
 
 /* dlopen(3) flags for compatibility with LoadLibrary()
  * taken from different implementations of dlfcn.h */
-- 
2.43.0


From dfd9c886c0a4f4b68d8d08839954fb59556fd455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:17 +0000
Subject: [PATCH 52/56] fix: library name macros expanded the library's name if
 it is also the name of a macro

GDO_LIBNAME(foo,1) became "libgdo_hndl.GDO_PTR_foo.so.1" if the library
foo has a function foo.
---
 src/templates/filename_macros.h | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/templates/filename_macros.h b/src/templates/filename_macros.h
index 63e9c91..1310a20 100644
--- a/src/templates/filename_macros.h
+++ b/src/templates/filename_macros.h
@@ -51,41 +51,45 @@ GDO_LIBEXTW
  *
  * ELF: libfoo.so.1.2
  */
-#undef GDO_LIBNAMEA
+#undef _GDO_LIBNAME_STR
 #ifdef _WIN32
 # ifdef __MINGW32__
-#  define GDO_LIBNAMEA(NAME, API)  "lib" #NAME "-" #API ".dll"
+#  define _GDO_LIBNAME_STR(STR, API)  "lib" STR "-" #API ".dll"
 # else
-#  define GDO_LIBNAMEA(NAME, API)        #NAME "-" #API ".dll"
+#  define _GDO_LIBNAME_STR(STR, API)        STR "-" #API ".dll"
 # endif
 #elif defined(__APPLE__)
-# define GDO_LIBNAMEA(NAME, API)   "lib" #NAME "." #API ".dylib"
+# define _GDO_LIBNAME_STR(STR, API)   "lib" STR "." #API ".dylib"
 #elif defined(_AIX)
 # if defined(__64BIT__) /* IBM XL C */ || defined(__LP64__) /* GCC */
-#  define GDO_LIBNAMEA(NAME, API)  "lib" #NAME ".a(shr_64.o)"
+#  define _GDO_LIBNAME_STR(STR, API)  "lib" STR ".a(shr_64.o)"
 # else
-#  define GDO_LIBNAMEA(NAME, API)  "lib" #NAME ".a(shr.o)"
+#  define _GDO_LIBNAME_STR(STR, API)  "lib" STR ".a(shr.o)"
 # endif
 #elif defined(__ANDROID__)
-# define GDO_LIBNAMEA(NAME, API)   "lib" #NAME ".so"
+# define _GDO_LIBNAME_STR(STR, API)   "lib" STR ".so"
 #else /* other ELF systems */
-# define GDO_LIBNAMEA(NAME, API)   "lib" #NAME ".so." #API
+# define _GDO_LIBNAME_STR(STR, API)   "lib" STR ".so." #API
 #endif
 
+/* the name is turned into a string right away: it may be the name of a macro too */
+#undef GDO_LIBNAMEA
+#define GDO_LIBNAMEA(NAME, API)  _GDO_LIBNAME_STR(#NAME, API)
+
 /* wide character macros */
 #undef GDO_LIBEXTW
 #undef GDO_LIBNAMEW
 #define GDO_LIBEXTW              L"" GDO_LIBEXTA
-#define GDO_LIBNAMEW(NAME, API)  L"" GDO_LIBNAMEA(NAME,API)
+#define GDO_LIBNAMEW(NAME, API)  L"" _GDO_LIBNAME_STR(#NAME, API)
 
 /* wide/narrow character default macros */
 #undef GDO_LIBEXT
 #undef GDO_LIBNAME
 #if defined(_WIN32) && defined(_UNICODE) && !defined(GDO_USE_DLOPEN)
 # define GDO_LIBEXT              GDO_LIBEXTW
-# define GDO_LIBNAME(NAME, API)  GDO_LIBNAMEW(NAME, API)
+# define GDO_LIBNAME(NAME, API)  L"" _GDO_LIBNAME_STR(#NAME, API)
 #else
 # define GDO_LIBEXT              GDO_LIBEXTA
-# define GDO_LIBNAME(NAME, API)  GDO_LIBNAMEA(NAME, API)
+# define GDO_LIBNAME(NAME, API)  _GDO_LIBNAME_STR(#NAME, API)
 #endif
 
-- 
2.43.0


From 1f6cda955452512eb68942163bdb7b91ff13f0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:19 +0000
Subject: [PATCH 53/56] fix: Clang AST: functions declared with redundant
 parentheses were ignored

The type of 'int (*f(int a));' is dumped as 'int (*(int))'.
---
 src/clang_ast.cpp | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/src/clang_ast.cpp b/src/clang_ast.cpp
index d81f304..4365110 100644
--- a/src/clang_ast.cpp
+++ b/src/clang_ast.cpp
@@ -168,8 +168,8 @@ bool is_supported_function(const std::string &type)
     return (utils::find(type, '(', pos) && utils::str_at(type, pos + 1) != '*');
 }
 
-/* get what's inside of the parentheses beginning at `pos' */
-std::string get_parameter_list(const std::string &type, size_t pos)
+/* get the position of the parenthesis closing the one at `pos' */
+size_t find_closing(const std::string &type, size_t pos)
 {
     int scope = 0;
     size_t end = pos;
@@ -182,7 +182,29 @@ std::string get_parameter_list(const std::string &type, size_t pos)
         }
     }
 
-    return type.substr(pos + 1, end - pos - 1);
+    return end;
+}
+
+
+/* get what's inside of the parentheses beginning at `pos' */
+std::string get_parameter_list(const std::string &type, size_t pos)
+{
+    return type.substr(pos + 1, find_closing(type, pos) - pos - 1);
+}
+
+
+/* remove redundant parentheses: 'TYPE (*(PARAMETERS))' ==> 'TYPE *(PARAMETERS)' */
+void remove_redundant_parentheses(std::string &type)
+{
+    size_t pos;
+
+    while (utils::find(type, '(', pos) &&
+        (utils::str_at(type, pos + 1) == '*' || utils::str_at(type, pos + 1) == '(') &&
+        find_closing(type, pos) == type.size() - 1)
+    {
+        type.pop_back();
+        type.erase(pos, 1);
+    }
 }
 
 } /* end anonymous namespace */
@@ -213,6 +235,10 @@ int gendlopen::get_declarations(filter::mode mode)
         return 0;
     }
 
+    if (is_function) {
+        remove_redundant_parentheses(type);
+    }
+
     /* check for a prefixed symbol or a symbol from a whitelist */
     proto_t proto;
 
-- 
2.43.0


From 9371274ebf8cb97fb0240ac5a9ed6c75020f6773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:06 +0000
Subject: [PATCH 54/56] fix: nested redundant parentheses were not always
 removed

After deleting a pair of parentheses the numbers of the remaining pair
were out of step, so `int ((((*fp))(void)));' was refused.
---
 src/tokenize.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tokenize.cpp b/src/tokenize.cpp
index e69f543..8196b79 100644
--- a/src/tokenize.cpp
+++ b/src/tokenize.cpp
@@ -257,6 +257,10 @@ namespace /* anonymous */
             if ((*inner_Lparen).num == (*inner_Rparen).num &&
                 (*outer_Lparen).num == (*outer_Rparen).num)
             {
+                /* the outer parentheses replace the inner ones */
+                (*outer_Lparen).num = (*inner_Lparen).num;
+                (*outer_Rparen).num = (*inner_Rparen).num;
+
                 /* delete inner parentheses */
                 v.erase(inner_Rparen);
                 v.erase(inner_Lparen);
-- 
2.43.0


From bc58cbdeb0597bbf1b615c9df3489726a8ca0ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:10 +0000
Subject: [PATCH 55/56] fix: refuse declarations whose parentheses and brackets
 do not nest

`int x[)];' or `int f(int ] a);' were accepted and reproduced.
---
 src/parse.cpp | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/src/parse.cpp b/src/parse.cpp
index d10ba78..62f27b0 100644
--- a/src/parse.cpp
+++ b/src/parse.cpp
@@ -65,6 +65,37 @@ namespace /* anonymous */
     }
 
 
+    /* check if parentheses and brackets are balanced and properly nested */
+    bool is_nested(const vstring_t &v)
+    {
+        std::string open;
+
+        for (const auto &e : v)
+        {
+            const char c = utils::str_front(e);
+
+            switch (c)
+            {
+            case '(':
+            case '[':
+                open.push_back(c);
+                break;
+            case ')':
+            case ']':
+                if (open.empty() || open.back() != (c == ')' ? '(' : '[')) {
+                    return false;
+                }
+                open.pop_back();
+                break;
+            default:
+                break;
+            }
+        }
+
+        return open.empty();
+    }
+
+
     /* check if the parentheses opened at `it' are closed by the element at `last' */
     bool closed_by(iter_t it, const iter_t &last)
     {
@@ -287,6 +318,10 @@ namespace /* anonymous */
             return false;
         }
 
+        if (!is_nested(v)) {
+            return false;
+        }
+
         iter_t it = parse::find_first_not_pointer_or_ident(v);
 
         if (it == v.end()) {
-- 
2.43.0


From 887dd803057d860346f5748b1138a777fa1aed51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:15 +0000
Subject: [PATCH 56/56] fix: -param=skip: refuse empty parameters and stray
 pointers like the other modes

---
 src/parameter_names.cpp | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/parameter_names.cpp b/src/parameter_names.cpp
index a8f8047..d95642f 100644
--- a/src/parameter_names.cpp
+++ b/src/parameter_names.cpp
@@ -151,10 +151,7 @@ namespace /* anonymous */
         /* parameter_names == param::read */
         for (vstring_t &v : proto.args_vec)
         {
-            if (v.empty()) {
-                msg = "empty parameter in function `" + proto.symbol + "'";
-                return false;
-            } else if (v.size() == 1) {
+            if (v.size() == 1) {
                 /* check for `...' */
                 if (v.front() == "...") {
                     /* don't append to proto.param_names */
@@ -166,12 +163,8 @@ namespace /* anonymous */
                 return false;
             }
 
-            /* check if a parameter begins or ends with pointer (v.size() > 1) */
-            if (v.front().starts_with('*')) {
-                msg = "parameter in function `" + proto.symbol + "' begins with pointer `*': ";
-                parse::append_strings(msg, v);
-                return false;
-            } else if (v.back().ends_with('*')) {
+            /* check if a parameter ends with pointer (v.size() > 1) */
+            if (v.back().ends_with('*')) {
                 msg = "parameter in function `" + proto.symbol + "' is missing a typename: ";
                 parse::append_strings(msg, v);
                 msg += hint;
@@ -222,6 +215,18 @@ bool parse::get_parameter_names(proto_t &proto, param::names &parameter_names, s
 
     /* copy parameters */
     for (auto &v : proto.args_vec) {
+        if (v.empty()) {
+            msg = "empty parameter in function `" + proto.symbol + "'";
+            return false;
+        }
+
+        /* check if a parameter begins with pointer */
+        if (v.front().starts_with('*')) {
+            msg = "parameter in function `" + proto.symbol + "' begins with pointer `*': ";
+            append_strings(msg, v);
+            return false;
+        }
+
         append_strings(proto.args, v);
         proto.args += ", ";
     }
-- 
2.43.0

