From fa4a7cb68f8b90463f83163bf03988e87931752d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:31 +0000
Subject: [PATCH 01/42] fix: never list the last line of an unclosed fenced
 code block

---
 md_toc/api.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/md_toc/api.py b/md_toc/api.py
index a4f13ad..45625ee 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -320,6 +320,10 @@ def build_toc(
                 ])
             f.seek(file_pointer_pos)
 
+        # The content and the closing marker of a fenced code block are never
+        # headers, even if the block is closed by the end of the document.
+        was_within_code_fence: bool = is_within_code_fence
+
         # Code fence detection.
         if is_within_code_fence:
             is_within_code_fence = not is_closing_code_fence(
@@ -334,7 +338,7 @@ def build_toc(
                 # Update the status of the next line.
                 is_within_code_fence = True
 
-        if not is_within_code_fence or code_fence is None:
+        if not was_within_code_fence and not is_within_code_fence:
 
             # Header detection and gathering.
             headers: list[types.Header] = get_md_header(
-- 
2.43.0


From b7cbbd602ec23643c5a3c52fb34b309609b5bad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:33 +0000
Subject: [PATCH 02/42] fix: keep the text of ATX headings made of hash
 sequences only

---
 md_toc/api.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/md_toc/api.py b/md_toc/api.py
index 45625ee..b868235 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -1257,6 +1257,11 @@ def get_atx_heading(
                     if i > hash_round_start:
                         hash_char_rounds += 1
 
+            # The loop reached the start of the text: only the last sequence of
+            # hashes is the closing one.
+            if go and hash_char_rounds > 1:
+                cs_end = len_subl - hash_round_start
+
             final_line = subl[cs_start:cs_end]
 
             # Add escaping.
-- 
2.43.0


From 5dc3d269e252a43e336e2b3cbe52aaf043272dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:55 +0000
Subject: [PATCH 03/42] fix: link labels in headings do not raise KeyError or
 loop forever

---
 md_toc/cmark/inlines_c.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/md_toc/cmark/inlines_c.py b/md_toc/cmark/inlines_c.py
index d61b571..1bafca9 100644
--- a/md_toc/cmark/inlines_c.py
+++ b/md_toc/cmark/inlines_c.py
@@ -1230,7 +1230,7 @@ def _cmark_link_label(subj: _cmarkSubject, raw_label: _cmarkCmarkChunk) -> int:
         return 0
 
     c = chr(_cmark_peek_char(subj))
-    while c and c != '[' and c != ']':
+    while not _cmark_is_eof(subj) and c != '[' and c != ']':
         if c == '\\':
             _cmark_advance(subj)
             length += 1
@@ -1242,20 +1242,21 @@ def _cmark_link_label(subj: _cmarkSubject, raw_label: _cmarkCmarkChunk) -> int:
             length += 1
 
         # MAX_LINK_LABEL_LENGTH is defined as 1000 while
-        # parser['cmark']['link']['max chars label'] is defined as 999.
+        # parser['cmark']['link']['max_chars_label'] is defined as 999.
         #     if (length > MAX_LINK_LABEL_LENGTH) {
-        if length > md_parser['cmark']['link']['max chars label'] + 1:
+        if length > md_parser['cmark']['link']['max_chars_label'] + 1:
             no_match = True
+            break
 
         c = chr(_cmark_peek_char(subj))
 
-    if no_match:
+    if no_match or c != ']':
         subj.pos = startpos  # rewind
         return 0
     else:
-        if c == ']':  # match found
-            raw_label = _cmark_cmark_chunk_dup(subj.input, startpos + 1,
-                                               subj.pos - (startpos + 1))
+        # match found
+        raw_label = _cmark_cmark_chunk_dup(subj.input, startpos + 1,
+                                           subj.pos - (startpos + 1))
         _cmark_cmark_chunk_trim(raw_label)
         _cmark_advance(subj)  # advance past ]
         return 1
-- 
2.43.0


From 8745d729bb72a9514cbfc666cb26ec33f665d3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:56 +0000
Subject: [PATCH 04/42] fix: unterminated inline links at the end of a heading
 do not raise IndexError

---
 md_toc/cmark/inlines_c.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/md_toc/cmark/inlines_c.py b/md_toc/cmark/inlines_c.py
index 1bafca9..391cb5b 100644
--- a/md_toc/cmark/inlines_c.py
+++ b/md_toc/cmark/inlines_c.py
@@ -404,7 +404,11 @@ def _cmark_peek_char(subj: _cmarkSubject) -> int:
 
 # 0.29, 0.30
 def _cmark_peek_at(subj: _cmarkSubject, pos: int) -> int:
-    return ord(subj.input.data[pos])
+    # The C source relies on the NULL terminator of the string.
+    if pos < len(subj.input.data):
+        return ord(subj.input.data[pos])
+    else:
+        return 0
 
 
 # Return true if there are more characters in the subject.
-- 
2.43.0


From 9ef59668148ba2ab547d45bba832e01da0337e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:58 +0000
Subject: [PATCH 05/42] fix: non-ASCII digits are not part of numeric character
 references

---
 md_toc/cmark/houdini_html_u_c.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/md_toc/cmark/houdini_html_u_c.py b/md_toc/cmark/houdini_html_u_c.py
index 4bf4a69..d655a2f 100644
--- a/md_toc/cmark/houdini_html_u_c.py
+++ b/md_toc/cmark/houdini_html_u_c.py
@@ -82,10 +82,10 @@ def _cmark_houdini_unescape_ent(ob: _cmarkCmarkStrbuf, src: str,
         num_digits: int = 0
         max_digits: int = 7
 
-        if re.match(r'\d', src[1]):
+        if re.match('[0-9]', src[1]):
 
             i = 1
-            while i < size and re.match(r'\d', src[i]):
+            while i < size and re.match('[0-9]', src[i]):
                 codepoint = (codepoint * 10) + (ord(src[i]) - ord('0'))
 
                 if codepoint >= 0x110000:
@@ -100,7 +100,7 @@ def _cmark_houdini_unescape_ent(ob: _cmarkCmarkStrbuf, src: str,
 
         elif src[1] == 'x' or src[1] == 'X':
             i = 2
-            while i < size and re.match(r'[\dA-Fa-f]', src[i]):
+            while i < size and re.match('[0-9A-Fa-f]', src[i]):
                 codepoint = (codepoint * 16) + ((ord(src[i]) | 32) % 39 - 9)
 
                 if codepoint >= 0x110000:
-- 
2.43.0


From 54e154e927bde313dcd71025a48b1e81b67b791c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:00 +0000
Subject: [PATCH 06/42] fix: U+0100 in a heading does not raise IndexError

---
 md_toc/cmark/inlines_c.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/md_toc/cmark/inlines_c.py b/md_toc/cmark/inlines_c.py
index 391cb5b..b4145e0 100644
--- a/md_toc/cmark/inlines_c.py
+++ b/md_toc/cmark/inlines_c.py
@@ -2050,8 +2050,8 @@ def _cmark_subject_find_special_char(subj: _cmarkSubject, options: int) -> int:
         # Patch to avoid overflow problems.
         # FIXME: this should not be needed!
         # These two are not present in the original C source code.
-        if (ord(subj.input.data[n]) > len(SPECIAL_CHARS)
-                or ord(subj.input.data[n]) > len(SMART_PUNCT_CHARS)):
+        if (ord(subj.input.data[n]) >= len(SPECIAL_CHARS)
+                or ord(subj.input.data[n]) >= len(SMART_PUNCT_CHARS)):
             return n
 
         if SPECIAL_CHARS[ord(subj.input.data[n])] == 1:
-- 
2.43.0


From 4e518eb051938fbbfb71982337a3fa8a053ea300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:02 +0000
Subject: [PATCH 07/42] fix: look at the real character before an emphasis
 delimiter

---
 md_toc/cmark/inlines_c.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/md_toc/cmark/inlines_c.py b/md_toc/cmark/inlines_c.py
index b4145e0..9b5be60 100644
--- a/md_toc/cmark/inlines_c.py
+++ b/md_toc/cmark/inlines_c.py
@@ -646,11 +646,8 @@ def _cmark_scan_delims(subj: _cmarkSubject, c: str) -> tuple:
         before_char = 10
     else:
         before_char_pos = subj.pos - 1
-        # walk back to the beginning of the UTF_8 sequence
-        while _cmark_peek_at(
-                subj, before_char_pos) >> 6 == 2 and before_char_pos > 0:
-            before_char_pos -= 1
-
+        # There are no UTF-8 sequences to walk back: Python strings are made
+        # of code points.
         length, before_char = _cmark_cmark_utf8proc_iterate(
             subj.input.data[before_char_pos:],
             subj.pos - before_char_pos,
-- 
2.43.0


From ee46f80e436e8c4e24f21f12efb3d465857d9fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:16 +0000
Subject: [PATCH 08/42] fix: recognise the scheme of URI autolinks

---
 md_toc/cmark/scanners_c.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/md_toc/cmark/scanners_c.py b/md_toc/cmark/scanners_c.py
index b40d7c9..9fef527 100644
--- a/md_toc/cmark/scanners_c.py
+++ b/md_toc/cmark/scanners_c.py
@@ -113,7 +113,8 @@ def _cmark__scan_spacechars(ptr: str, p: int) -> int:
 
 # Try to match URI autolink after first <, returning number of chars matched.
 def _cmark__scan_autolink_uri(ptr: str, p: int) -> int:
-    return _common_scan('[:][^\x00-\x20<>]*[>]', ptr, p)
+    return _common_scan(
+        '[A-Za-z][A-Za-z0-9.+-]{1,31}[:][^\x00-\x20<>]*[>]', ptr, p)
 
 
 # Try to match email autolink after first <, returning num of chars matched.
-- 
2.43.0


From 7c172d8e3b3ce5f14ee9e29027555cabbccfad42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:18 +0000
Subject: [PATCH 09/42] fix: remove HTML declarations and CDATA sections from
 anchor links

---
 md_toc/api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/md_toc/api.py b/md_toc/api.py
index b868235..8bba592 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -973,14 +973,14 @@ def build_anchor_link(
         raise StringCannotContainNewlines
 
     if parser in ['github', 'cmark', 'gitlab', 'commonmarker', 'goldmark']:
-        header_text_trimmed = header_text_trimmed.lower()
-
         # Filter HTML tags.
         header_text_trimmed = remove_html_tags(header_text_trimmed, parser)
 
         # Filter "emphasis and strong emphasis".
         header_text_trimmed = remove_emphasis(header_text_trimmed, parser)
 
+        header_text_trimmed = header_text_trimmed.lower()
+
         # Remove punctuation characters.
         header_text_trimmed = anchor_link_punctuation_filter(
             header_text_trimmed, parser)
-- 
2.43.0


From 2b4155e07598f3ddf3b2f14bfb3e1a65dfabcc14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:35 +0000
Subject: [PATCH 10/42] fix: remove HTML comments that are short or contain a
 greater-than sign

---
 md_toc/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/md_toc/constants.py b/md_toc/constants.py
index f624ce3..9f87f35 100644
--- a/md_toc/constants.py
+++ b/md_toc/constants.py
@@ -120,7 +120,7 @@ parser: dict = {
 
             # 3. HTML comment.
             'COS': '<!--',
-            'COT': '((?!>|->)(?:(?!--).))+(?!-).?',
+            'COT': '(?!>|->)(?:(?!--).)*',
             'COE': '-->',
 
             # 4. Processing instructions.
-- 
2.43.0


From 1a1d9269b3c1cbe13ee4022dcf29e0ec139f4b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:36 +0000
Subject: [PATCH 11/42] fix: remove closing HTML tags with more than one
 trailing space

---
 md_toc/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/md_toc/constants.py b/md_toc/constants.py
index 9f87f35..0609079 100644
--- a/md_toc/constants.py
+++ b/md_toc/constants.py
@@ -273,7 +273,7 @@ parser['github']['re'].update({
      ')*' + '(' + parser['github']['re']['WS'] + ')*' + '(/)?' + '>'),
     # 2. Close tag.
     'CT': ('</' + parser['github']['re']['TN'] + parser['github']['re']['WS'] +
-           '?' + '>'),
+           '*' + '>'),
     # 5. Declarations.
     'DE': (parser['github']['re']['DES'] + parser['github']['re']['DEN'] +
            parser['github']['re']['DEW'] + parser['github']['re']['DEB'] +
-- 
2.43.0


From 8920a2e907d43ea446361b39c550b42e2dfd6031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:38 +0000
Subject: [PATCH 12/42] fix: a hidden heading does not hide the headings of the
 following lines

---
 md_toc/api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/md_toc/api.py b/md_toc/api.py
index 8bba592..e28722e 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -1127,7 +1127,6 @@ def get_atx_heading(
         raise ValueError
 
     struct: list[types.AtxHeadingStructElement] = list()
-    line_visible: bool = True
 
     if len(line) == 0:
         return [{
@@ -1139,6 +1138,7 @@ def get_atx_heading(
     for subl in replace_and_split_newlines(line):
         current_headers = None
         final_line = None
+        line_visible: bool = True
 
         if parser in ['github', 'cmark', 'gitlab', 'commonmarker', 'goldmark']:
 
@@ -1173,7 +1173,7 @@ def get_atx_heading(
             # We need to continue parsing to find possible duplicate headers
             # in other functions if we set keep_header_levels < max_levels.
             if i - offset > keep_header_levels:
-                line_visible: bool = False
+                line_visible = False
 
             current_headers = i - offset
 
-- 
2.43.0


From 817485f9c499ae4fc77a3e91cc01f9f4339604cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:40 +0000
Subject: [PATCH 13/42] fix: redcarpet honours the maximum header level

---
 md_toc/api.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/md_toc/api.py b/md_toc/api.py
index e28722e..de2e91f 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -1322,6 +1322,9 @@ def get_atx_heading(
                 i += 1
             current_headers = i
 
+            if i > keep_header_levels:
+                line_visible = False
+
             if i < len(subl) and subl[i] != ' ':
                 continue
 
-- 
2.43.0


From f2f6c8261fdd2711a6ef811e8c4dd40bbd33149b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:25 +0000
Subject: [PATCH 14/42] fix: skip HTML tags and entities in redcarpet anchor
 links

---
 md_toc/api.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/md_toc/api.py b/md_toc/api.py
index de2e91f..9fc6f79 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -1024,15 +1024,16 @@ def build_anchor_link(
         inserted = 0
         stripped = 0
         header_text_trimmed_middle_stage = list()
-        for i in range(0, header_text_trimmed_len):
-            if header_text_trimmed[i] == '<':
-                while i < header_text_trimmed_len and header_text_trimmed[
-                        i] != '>':
-                    i += 1
-            elif header_text_trimmed[i] == '&':
-                while i < header_text_trimmed_len and header_text_trimmed[
-                        i] != ';':
-                    i += 1
+        # HTML tags and entities. The C function operates on the rendered
+        # header: there, every other '<' and '&' is an entity.
+        html_regex = re.compile(r'</?[A-Za-z0-9][^>]*>|&#?[A-Za-z0-9]+;')
+        i = 0
+        while i < header_text_trimmed_len:
+            html_match = html_regex.match(header_text_trimmed, i)
+            if html_match is not None:
+                i = html_match.end() - 1
+            elif header_text_trimmed[i] in ['<', '&']:
+                pass
             # str.find() == -1 if character is not found in str.
             # https://docs.python.org/3.6/library/stdtypes.html?highlight=find#str.find
             elif not generic._isascii(header_text_trimmed[i]) or STRIPPED.find(
@@ -1045,6 +1046,7 @@ def build_anchor_link(
                     header_text_trimmed[i].lower(), )
                 stripped = 0
                 inserted += 1
+            i += 1
 
         header_text_trimmed_middle_stage_str: str = ''.join(
             header_text_trimmed_middle_stage)
-- 
2.43.0


From dc51cfd6be97d69c8abf43ad0fecd12e1ae86790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:27 +0000
Subject: [PATCH 15/42] fix: compute the redcarpet anchor hash on bytes with 64
 bits

---
 md_toc/api.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/md_toc/api.py b/md_toc/api.py
index 9fc6f79..7387376 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -1056,15 +1056,11 @@ def build_anchor_link(
 
         if inserted == 0 and header_text_trimmed_len > 0:
             hash: int = 5381
-            for i in range(0, header_text_trimmed_len):
-                # Get the unicode representation with ord.
-                # Unicode should be equal to ASCII in ASCII's range of
-                # characters.
-                hash = ((hash << 5) + hash) + ord(header_text_trimmed[i])
-
-            # This is equivalent to %x in C. In Python we don't have
-            # the length problem so %x is equal to %lx in this case.
-            # Apparently there is no %l in Python...
+            for byte in header_text_trimmed.encode('UTF-8'):
+                # The C variable is an unsigned long (64 bits).
+                hash = ((hash << 5) + hash + byte) & 0xffffffffffffffff
+
+            # This is equivalent to %lx in C.
             header_text_trimmed_middle_stage_str = 'part-' + '{:x}'.format(
                 hash)
 
-- 
2.43.0


From 4d2f387b22c7682ec67dcddce529aaf9cd7a4378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:52 +0000
Subject: [PATCH 16/42] fix: escape the backslash before the closing sequence
 of redcarpet headings

---
 md_toc/api.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/md_toc/api.py b/md_toc/api.py
index 7387376..a01a74b 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -1340,12 +1340,12 @@ def get_atx_heading(
                 end -= 1
 
             if end > i:
-                final_line = subl
-                if not no_links and len(
-                        final_line) > 0 and final_line[-1] == '\\':
+                final_line = subl[i:end]
+                # An odd number of backslashes at the end of the label would
+                # escape the square bracket which closes it.
+                if not no_links and (len(final_line) -
+                                     len(final_line.rstrip('\\'))) % 2 == 1:
                     final_line += ' '
-                    end += 1
-                final_line = final_line[i:end]
 
             if final_line is None:
                 current_headers = None
-- 
2.43.0


From 6bf7602d69ca5ea03bfcb1ad6c0b6b3a33928d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:53 +0000
Subject: [PATCH 17/42] fix: a trailing backslash does not add a hyphen to the
 anchor link

---
 md_toc/api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/md_toc/api.py b/md_toc/api.py
index a01a74b..8e60f54 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -1408,8 +1408,9 @@ def get_md_header(
             'text_original':
             r['header_text_trimmed'],
             'text_anchor_link':
+            # Ignore the space that protects a trailing backslash.
             build_anchor_link(
-                r['header_text_trimmed'],
+                r['header_text_trimmed'].rstrip('\u0020'),
                 header_duplicate_counter,
                 parser,
             ),
-- 
2.43.0


From 8c65bb7b64b371254e21859bef6b95c9a4b76e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:14 +0000
Subject: [PATCH 18/42] fix: do not duplicate or misinterpret carriage returns
 when writing in place

---
 md_toc/api.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/md_toc/api.py b/md_toc/api.py
index 8e60f54..646f267 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -61,6 +61,8 @@ def tocs_equal(current_toc: str, filename: str, marker: str) -> bool:
     tocs_equal: bool = False
     r: tuple = generic._get_existing_toc(filename, marker)
     old_toc: str = r[0]
+    # Files are read with universal newlines.
+    current_toc = current_toc.replace('\r\n', '\n').replace('\r', '\n')
     if current_toc.strip() == old_toc:
         tocs_equal = True
     return tocs_equal
@@ -92,11 +94,14 @@ def write_string_on_file_between_markers(
     if filename == '-':
         raise StdinIsNotAFileToBeWritten
 
+    # Files are read with universal newlines and every line feed is translated
+    # to newline_string when writing.
+    string = string.replace('\r\n', '\n').replace('\r', '\n')
+
     # TOC that is written to the file.
-    final_toc_string: str = ''.join([
-        marker, newline_string, newline_string,
-        string.rstrip(), newline_string, newline_string, marker, newline_string
-    ])
+    final_toc_string: str = ''.join(
+        [marker, '\n\n',
+         string.rstrip(), '\n\n', marker, '\n'])
 
     (
         old_toc,
-- 
2.43.0


From e6da690599ac16ea84cf4e021077d8d6bf1b79f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:16 +0000
Subject: [PATCH 19/42] fix: recognise the existing TOC if its only element is
 empty

---
 md_toc/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/md_toc/api.py b/md_toc/api.py
index 646f267..28e183a 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -101,7 +101,7 @@ def write_string_on_file_between_markers(
     # TOC that is written to the file.
     final_toc_string: str = ''.join(
         [marker, '\n\n',
-         string.rstrip(), '\n\n', marker, '\n'])
+         string.rstrip('\n'), '\n\n', marker, '\n'])
 
     (
         old_toc,
-- 
2.43.0


From 969181aecd3731bee2f2cb47c609fc261c0ab0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:30 +0000
Subject: [PATCH 20/42] fix: redcarpet TOCs start at the first column

---
 md_toc/api.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/md_toc/api.py b/md_toc/api.py
index 28e183a..74d4a2b 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -253,6 +253,7 @@ def build_toc(
     header_type_curr: int = 0
     header_type_prev: int = 0
     header_type_first: int = 0
+    indentation_base: int = 0
     header_duplicate_counter: types.HeaderDuplicateCounter = {}
 
     if filename == '-':
@@ -405,6 +406,12 @@ def build_toc(
                     )
                     no_of_indentation_spaces_curr = indentation_log[
                         header_type_curr]['indentation_spaces']
+                    # The list must start at the first column otherwise it
+                    # could be rendered as a code block.
+                    if len(toc) == 0:
+                        indentation_base = no_of_indentation_spaces_curr
+                    no_of_indentation_spaces_curr = max(
+                        0, no_of_indentation_spaces_curr - indentation_base)
 
                 # endif
 
-- 
2.43.0


From 60f0c1c60bc9914d3c900faf743a9a359619688b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:31 +0000
Subject: [PATCH 21/42] fix: detect binary files in the skipped lines

---
 md_toc/api.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/md_toc/api.py b/md_toc/api.py
index 74d4a2b..dea1d41 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -284,15 +284,15 @@ def build_toc(
         list_marker = md_parser[parser]['list']['ordered'][
             'default_closing_marker']
 
-    if skip_lines > 0:
-        loop: bool = True
-        line_counter = 1
-        while loop:
-            if line_counter > skip_lines or f.readline() == '':
-                loop = False
-            line_counter += 1
-
     try:
+        if skip_lines > 0:
+            loop: bool = True
+            line_counter = 1
+            while loop:
+                if line_counter > skip_lines or f.readline() == '':
+                    loop = False
+                line_counter += 1
+
         line = f.readline()
     except UnicodeDecodeError:
         return ''.join(
-- 
2.43.0


From 30a7499af41e2667411b475185cad02ceafa3525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:53 +0000
Subject: [PATCH 22/42] fix: a failed in-place write does not lose the existing
 TOC and its markers

---
 md_toc/api.py | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/md_toc/api.py b/md_toc/api.py
index dea1d41..bf68907 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -26,7 +26,9 @@ import copy
 import hashlib
 import os
 import re
+import shutil
 import sys
+import tempfile
 import typing
 
 import fpyutils
@@ -116,23 +118,35 @@ def write_string_on_file_between_markers(
     if string.strip() == old_toc:
         equal = True
 
-    generic._remove_line_intervals(filename, lines_to_delete)
+    # No markers.
+    if marker_line_positions_length < 1:
+        return equal
 
-    # Only 1 pre-existing marker.
-    if not two_or_more_markers and marker_line_positions_length == 1:
-        generic._remove_line_intervals(
-            filename, [[marker_line_positions[1], marker_line_positions[1]]])
+    # Edit a copy so that the original file is replaced only once, by the last
+    # operation: if something fails its content is not lost.
+    staging_fd, staging_filename = tempfile.mkstemp()
+    os.close(staging_fd)
+    try:
+        shutil.copyfile(filename, staging_filename)
+
+        generic._remove_line_intervals(staging_filename, lines_to_delete)
+
+        # Only 1 pre-existing marker.
+        if not two_or_more_markers and marker_line_positions_length == 1:
+            generic._remove_line_intervals(
+                staging_filename,
+                [[marker_line_positions[1], marker_line_positions[1]]])
 
-    # 2 or more pre-existing markers.
-    if marker_line_positions_length >= 1:
         fpyutils.filelines.insert_string_at_line(
-            filename,
+            staging_filename,
             final_toc_string,
             first_marker_line_number,
             filename,
             append=False,
             newline_character=newline_string,
         )
+    finally:
+        os.remove(staging_filename)
 
     return equal
 
-- 
2.43.0


From 627d67852a4d0d2b1222d4e689dea1bd203bdf20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:22 +0000
Subject: [PATCH 23/42] fix: a label made of different whitespace characters is
 empty

---
 md_toc/api.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/md_toc/api.py b/md_toc/api.py
index bf68907..59a0406 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -1292,10 +1292,8 @@ def get_atx_heading(
             if not no_links:
                 if len(final_line) > 0 and final_line[-1] == '\u005c':
                     final_line = ''.join([final_line, ' '])
-                if len(
-                        final_line.strip('\u0020').strip('\u0009').strip(
-                            '\u000a').strip('\u000b').strip('\u000c').strip(
-                                '\u000d'), ) == 0:
+                if len(final_line.strip(
+                        '\u0020\u0009\u000a\u000b\u000c\u000d')) == 0:
                     raise GithubEmptyLinkLabel
                 if len(final_line,
                        ) > md_parser['github']['link']['max_chars_label']:
-- 
2.43.0


From 80d5c7eb01ab3b2fe1401ab281da70c88b463b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:33 +0000
Subject: [PATCH 24/42] fix: an underscore that cannot close does not hide
 openers from other closers

---
 md_toc/cmark/inlines_c.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/md_toc/cmark/inlines_c.py b/md_toc/cmark/inlines_c.py
index 9b5be60..2c98789 100644
--- a/md_toc/cmark/inlines_c.py
+++ b/md_toc/cmark/inlines_c.py
@@ -877,6 +877,11 @@ def _cmark_process_emphasis(subj: _cmarkSubject, stack_bottom: _cmarkDelimiter,
         stack_bottom,
         stack_bottom,
         stack_bottom,
+        stack_bottom,
+        stack_bottom,
+        stack_bottom,
+        stack_bottom,
+        stack_bottom,
     ]
 
     # move back to first relevant delim.
@@ -892,8 +897,12 @@ def _cmark_process_emphasis(subj: _cmarkSubject, stack_bottom: _cmarkDelimiter,
                 openers_bottom_index = 1
             elif closer.delim_char == '_':
                 openers_bottom_index = 2
+                # The rule of 3 also applies to underscores.
+                if closer.can_open:
+                    openers_bottom_index += 3
+                openers_bottom_index += closer.length % 3
             elif closer.delim_char == '*':
-                openers_bottom_index = 3
+                openers_bottom_index = 8
                 if closer.can_open:
                     openers_bottom_index += 3
                 else:
-- 
2.43.0


From d0c46c4dffd1b640cf9bac5a45b6a31959725523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:39 +0000
Subject: [PATCH 25/42] fix: remove the right characters of a delimiter run
 that both closes and opens emphasis

---
 md_toc/cmark/inlines_c.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/md_toc/cmark/inlines_c.py b/md_toc/cmark/inlines_c.py
index 2c98789..67c5eed 100644
--- a/md_toc/cmark/inlines_c.py
+++ b/md_toc/cmark/inlines_c.py
@@ -135,7 +135,8 @@ class _cmarkDelimiter:
         'delim_char',
         'can_open',
         'can_close',
-        'offset',
+        'offset_opener',
+        'offset_closer',
     ]
 
     def __init__(self):
@@ -147,8 +148,10 @@ class _cmarkDelimiter:
         self.can_open: bool = False
         self.can_close: bool = False
 
-        # Extra attribute.
-        self.offset: int = 0
+        # Extra attributes: characters already used at the end of the
+        # delimiter run (as an opener) and at its start (as a closer).
+        self.offset_opener: int = 0
+        self.offset_closer: int = 0
 
 
 class _cmarkBracket:
@@ -1028,16 +1031,16 @@ def _cmark_remove_emph(subj: _cmarkSubject, opener: _cmarkDelimiter,
     #############
 
     # Custom variables and computations.
-    opener_relative_start = opener_inl.end_column - use_delims - opener.offset
-    opener_relative_end = opener_inl.end_column - opener.offset
-    closer_relative_start = closer_inl.start_column + closer.offset - 1
-    closer_relative_end = closer_inl.start_column + use_delims + closer.offset - 1
+    opener_relative_start = opener_inl.end_column - use_delims - opener.offset_opener
+    opener_relative_end = opener_inl.end_column - opener.offset_opener
+    closer_relative_start = closer_inl.start_column + closer.offset_closer - 1
+    closer_relative_end = closer_inl.start_column + use_delims + closer.offset_closer - 1
 
     ignore.append(range(opener_relative_start, opener_relative_end))
     ignore.append(range(closer_relative_start, closer_relative_end))
 
-    opener.offset += use_delims
-    closer.offset += use_delims
+    opener.offset_opener += use_delims
+    closer.offset_closer += use_delims
 
     # if opener has 0 characters, remove it and its associated inline
     if opener_num_chars == 0:
-- 
2.43.0


From 9300fc63989934900516f3563070a50f5fe0c67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:38 +0000
Subject: [PATCH 26/42] fix: tags whose name starts with a disallowed name and
 a hyphen are removed by github

---
 md_toc/constants.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/md_toc/constants.py b/md_toc/constants.py
index 0609079..73ea26d 100644
--- a/md_toc/constants.py
+++ b/md_toc/constants.py
@@ -262,7 +262,8 @@ parser['github']['re'].update({
 })
 
 parser['github']['re'].update({
-    'TN': ('(?!' + parser['github']['re']['GDRH'] + ')' +
+    # A disallowed name followed by a hyphen is the start of another name.
+    'TN': ('(?!' + parser['github']['re']['GDRH'] + '(?!-))' +
            parser['github']['re']['TN']),
 })
 
-- 
2.43.0


From fe5569822529d232f8c56811a68c6d68766686f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:40 +0000
Subject: [PATCH 27/42] fix: ordered list markers of more than 9 digits are
 refused for goldmark too

---
 md_toc/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/md_toc/api.py b/md_toc/api.py
index 59a0406..faf2dfa 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -576,7 +576,7 @@ def increase_index_ordered_list(
 
     header_type_count['h' + str(header_type_curr)] += 1
 
-    if parser in ['github', 'cmark', 'gitlab', 'commonmarker']:
+    if parser in ['github', 'cmark', 'gitlab', 'commonmarker', 'goldmark']:
         if header_type_count['h' + str(header_type_curr)] > md_parser[
                 'github']['list']['ordered']['max_marker_number']:
             raise GithubOverflowOrderedListMarker
-- 
2.43.0


From 2be78ee56652d94e33a84d3899440976e829c6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:59 +0000
Subject: [PATCH 28/42] fix: remove inline HTML in a single pass

---
 md_toc/api.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/md_toc/api.py b/md_toc/api.py
index faf2dfa..f791335 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -854,8 +854,9 @@ def remove_html_tags(line: str, parser: str = 'github') -> str:
             md_parser[parser]['re']['DE'], md_parser[parser]['re']['CD']
         ]
 
-        for r in regexes:
-            line = re.sub(r, '', line, flags=re.DOTALL)
+        # Use a single pass because what looks like a tag might be part of a
+        # comment, a processing instruction, a declaration or a CDATA section.
+        line = re.sub('|'.join(regexes), '', line, flags=re.DOTALL)
 
     return line
 
-- 
2.43.0


From cb6782ed5a6aaff8bacab0624f93e76a2a5b220d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:39 +0000
Subject: [PATCH 29/42] fix: recognise a TOC whose first element is empty and
 whose second one is indented

---
 md_toc/generic.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/md_toc/generic.py b/md_toc/generic.py
index 6709da3..3de9788 100644
--- a/md_toc/generic.py
+++ b/md_toc/generic.py
@@ -116,13 +116,15 @@ def _get_existing_toc(filename: str, marker: str) -> tuple:
             marker_line_positions[second_marker] - 1)
 
         # Line intervals excluding the newline after the first <!--TOC-->
-        # and before the last <!--TOC-->.
-        interval_with_newline: str = _read_line_interval(
-            lines, marker_line_positions[first_marker] + 2,
-            marker_line_positions[second_marker] - 2)
+        # and before the last <!--TOC-->. Only the first non empty line is
+        # needed: the following ones are not part of the first list element.
+        first_line: str = next(
+            (line for line in lines.split('\n')
+             [marker_line_positions[first_marker] +
+              1:marker_line_positions[second_marker] - 2] if line.strip()), '')
 
         # TODO: add code fence detection.
-        if _detect_toc_list(interval_with_newline) or _string_empty(interval):
+        if _detect_toc_list(first_line) or _string_empty(interval):
 
             # Skip the opening and closing TOC markers.
             start_line: int = marker_line_positions[first_marker] + 1
-- 
2.43.0


From c100a34e51b9895d0226811d6b050d516688413f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:20 +0000
Subject: [PATCH 30/42] fix: replace the file with a single rename even if the
 temporary directory is on another file system

---
 md_toc/api.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/md_toc/api.py b/md_toc/api.py
index f791335..5e3fbf0 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -123,8 +123,14 @@ def write_string_on_file_between_markers(
         return equal
 
     # Edit a copy so that the original file is replaced only once, by the last
-    # operation: if something fails its content is not lost.
-    staging_fd, staging_filename = tempfile.mkstemp()
+    # operation: if something fails its content is not lost. The copy is, if
+    # possible, in the same directory so that it can replace the file with a
+    # single rename.
+    try:
+        staging_fd, staging_filename = tempfile.mkstemp(
+            dir=os.path.dirname(os.path.abspath(filename)))
+    except OSError:
+        staging_fd, staging_filename = tempfile.mkstemp()
     os.close(staging_fd)
     try:
         shutil.copyfile(filename, staging_filename)
@@ -141,12 +147,14 @@ def write_string_on_file_between_markers(
             staging_filename,
             final_toc_string,
             first_marker_line_number,
-            filename,
+            staging_filename,
             append=False,
             newline_character=newline_string,
         )
+        shutil.move(staging_filename, filename)
     finally:
-        os.remove(staging_filename)
+        if os.path.exists(staging_filename):
+            os.remove(staging_filename)
 
     return equal
 
-- 
2.43.0


From 592af400a9ad5259af1423ecbcb2c0ff3082f6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:35 +0000
Subject: [PATCH 31/42] fix: an in-place update keeps the permissions of the
 file

---
 md_toc/api.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/md_toc/api.py b/md_toc/api.py
index 5e3fbf0..d371ef5 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -151,6 +151,7 @@ def write_string_on_file_between_markers(
             append=False,
             newline_character=newline_string,
         )
+        shutil.copymode(filename, staging_filename)
         shutil.move(staging_filename, filename)
     finally:
         if os.path.exists(staging_filename):
-- 
2.43.0


From 5a79e80906e3f2928ada4cb9bf7f707cc4a84ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:36 +0000
Subject: [PATCH 32/42] fix: an in-place update follows symbolic links

---
 md_toc/api.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/md_toc/api.py b/md_toc/api.py
index d371ef5..78be421 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -122,13 +122,16 @@ def write_string_on_file_between_markers(
     if marker_line_positions_length < 1:
         return equal
 
+    # Update the file a symbolic link points to, do not replace the link.
+    filename = os.path.realpath(filename)
+
     # Edit a copy so that the original file is replaced only once, by the last
     # operation: if something fails its content is not lost. The copy is, if
     # possible, in the same directory so that it can replace the file with a
     # single rename.
     try:
         staging_fd, staging_filename = tempfile.mkstemp(
-            dir=os.path.dirname(os.path.abspath(filename)))
+            dir=os.path.dirname(filename))
     except OSError:
         staging_fd, staging_filename = tempfile.mkstemp()
     os.close(staging_fd)
-- 
2.43.0


From 6d7ed9b29404434eae5f810c9de1e8061e121b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:25 +0000
Subject: [PATCH 33/42] fix: use universal newlines when reading from standard
 input

---
 md_toc/api.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/md_toc/api.py b/md_toc/api.py
index 78be421..10120df 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -22,8 +22,10 @@
 
 from __future__ import annotations
 
+import contextlib
 import copy
 import hashlib
+import io
 import os
 import re
 import shutil
@@ -284,6 +286,9 @@ def build_toc(
 
     if filename == '-':
         f = sys.stdin
+        # Use universal newlines like for any other file.
+        with contextlib.suppress(AttributeError, io.UnsupportedOperation):
+            f.reconfigure(newline=None)
     else:
         # When reading input from the stream,
         # if newline is None, universal newlines mode is enabled.
-- 
2.43.0


From df28ca2780683c10f7f08ab7dbd5bea48515983a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:33 +0000
Subject: [PATCH 34/42] fix: a link destination which ends with a backslash
 raised an IndexError

---
 md_toc/cmark/buffer_c.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/md_toc/cmark/buffer_c.py b/md_toc/cmark/buffer_c.py
index fe71de4..1136d14 100644
--- a/md_toc/cmark/buffer_c.py
+++ b/md_toc/cmark/buffer_c.py
@@ -330,7 +330,9 @@ def _cmark_cmark_strbuf_unescape(buf: _cmarkCmarkStrbuf):
     #     while r < len(buf.ptr)
     #
     while r < len(buf.ptr):
-        if buf.ptr[r] == '\\' and _cmark_cmark_ispunct(ord(buf.ptr[r + 1])):
+        # There is no string terminator in Python.
+        if (buf.ptr[r] == '\\' and r + 1 < len(buf.ptr)
+                and _cmark_cmark_ispunct(ord(buf.ptr[r + 1]))):
             r += 1
 
         #     buf->ptr[w+] = buf->ptr[r];
-- 
2.43.0


From a86ad9da950aa473d4bb834e74a7f49acddb4798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:46 +0000
Subject: [PATCH 35/42] fix: remove empty CDATA sections from anchor links

---
 md_toc/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/md_toc/constants.py b/md_toc/constants.py
index 73ea26d..dc29fa2 100644
--- a/md_toc/constants.py
+++ b/md_toc/constants.py
@@ -138,7 +138,7 @@ parser: dict = {
             # Section.
             'CDS': r'<!\[CDATA\[',
             # Body.
-            'CDB': r'(?:(?!\]\]>).)+',
+            'CDB': r'(?:(?!\]\]>).)*',
             # End.
             'CDE': r'\]\]>',
 
-- 
2.43.0


From f09cad79010dcc2a828a0b93ed676d1cd4846791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:51 +0000
Subject: [PATCH 36/42] fix: remove declarations with nothing after the name
 from anchor links

---
 md_toc/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/md_toc/constants.py b/md_toc/constants.py
index dc29fa2..9ef2e19 100644
--- a/md_toc/constants.py
+++ b/md_toc/constants.py
@@ -131,7 +131,7 @@ parser: dict = {
             # 5. Declarations.
             'DES': '<!',
             'DEN': '[A-Z]+',
-            'DEB': '(?:(?!>).)+',
+            'DEB': '(?:(?!>).)*',
             'DEE': '>',
 
             # 6. CDATA
-- 
2.43.0


From aacb99eb28a38518ae93136b11bd5745fa31bef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:52 +0000
Subject: [PATCH 37/42] fix: HTML attributes without a value hid the tag from
 the removal of emphasis

---
 md_toc/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/md_toc/constants.py b/md_toc/constants.py
index 9ef2e19..c1743dc 100644
--- a/md_toc/constants.py
+++ b/md_toc/constants.py
@@ -55,7 +55,7 @@ __cmark_singlequotedvalue = "(['][^'\x00]*['])"
 __cmark_doublequotedvalue = '(["][^"\x00]*["])'
 __cmark_attributevalue = '(' + __cmark_unquotedvalue + '|' + __cmark_singlequotedvalue + '|' + __cmark_doublequotedvalue + ')'
 __cmark_attributevaluespec = __cmark_spacechar + '*[=]' + __cmark_spacechar + '*' + __cmark_attributevalue
-__cmark_attribute = '(' + __cmark_spacechar + '+' + __cmark_attributename + __cmark_attributevaluespec + '?)'
+__cmark_attribute = '(' + __cmark_spacechar + '+' + __cmark_attributename + '(' + __cmark_attributevaluespec + ')?)'
 __cmark_opentag = __cmark_tagname + __cmark_attribute + '*' + __cmark_spacechar + '*[/]?[>]'
 __cmark_closetag = '[/]' + __cmark_tagname + __cmark_spacechar + '*[>]'
 
-- 
2.43.0


From cd8750be10e9088f8b81622c7d6f69759a1d83b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:42 +0000
Subject: [PATCH 38/42] fix: recognise images when removing emphasis

The code point of the character was compared with a string.
---
 md_toc/cmark/inlines_c.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/md_toc/cmark/inlines_c.py b/md_toc/cmark/inlines_c.py
index 67c5eed..28a1350 100644
--- a/md_toc/cmark/inlines_c.py
+++ b/md_toc/cmark/inlines_c.py
@@ -2116,7 +2116,7 @@ def _cmark_parse_inline(subj: _cmarkSubject,
         _cmark_handle_close_bracket(subj, ignore)
     elif chr(c) in ['!']:
         _cmark_advance(subj)
-        if _cmark_peek_char(subj) == '[':
+        if chr(_cmark_peek_char(subj)) == '[':
             _cmark_advance(subj)
             new_inl = _cmark_make_str(subj, subj.pos - 2, subj.pos - 1,
                                       _cmark_cmark_chunk_literal('!['))
-- 
2.43.0


From fe931f585bb16dd9da5464e5f8dc2173dffe389f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:43 +0000
Subject: [PATCH 39/42] fix: recognise link titles in parentheses and with
 escaped delimiters

---
 md_toc/cmark/scanners_c.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/md_toc/cmark/scanners_c.py b/md_toc/cmark/scanners_c.py
index 9fef527..c0dd1b0 100644
--- a/md_toc/cmark/scanners_c.py
+++ b/md_toc/cmark/scanners_c.py
@@ -95,12 +95,11 @@ def _common_scan(regex: str, ptr: str, p: int) -> int:
 # in parentheses), returning number of chars matched.  Allow one
 # level of internal nesting (quotes within quotes).
 def _cmark__scan_link_title(ptr: str, p: int) -> int:
-    r1 = '["](' + md_parser['cmark']['_scanners.re'][
-        'escaped_char'] + '|[^"\u0000])*["]'
-    r2 = "['](" + md_parser['cmark']['_scanners.re'][
-        'escaped_char'] + "|[^'\u0000])*[']"
-    r3 = r'[\(](' + md_parser['cmark']['_scanners.re'][
-        'escaped_char'] + r"|[^\(\)\u0000])*[']"
+    # A backslash and what follows are taken together so that an escaped
+    # delimiter does not end the title.
+    r1 = r'["]([\\][^\u0000]|[^"\\\u0000])*["]'
+    r2 = r"[']([\\][^\u0000]|[^'\\\u0000])*[']"
+    r3 = r'[\(]([\\][^\u0000]|[^\(\)\\\u0000])*[\)]'
     r = '(' + r1 + '|' + r2 + '|' + r3 + ')'
     return _common_scan(r, ptr, p)
 
-- 
2.43.0


From 90a5a71826f7aa6c7dd05a56cc5b424ab6981d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:45 +0000
Subject: [PATCH 40/42] fix: do not pair emphasis delimiters across the border
 of a link

The lower bound of the search might have been removed from the list.
---
 md_toc/cmark/inlines_c.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/md_toc/cmark/inlines_c.py b/md_toc/cmark/inlines_c.py
index 28a1350..503bc7e 100644
--- a/md_toc/cmark/inlines_c.py
+++ b/md_toc/cmark/inlines_c.py
@@ -917,8 +917,8 @@ def _cmark_process_emphasis(subj: _cmarkSubject, stack_bottom: _cmarkDelimiter,
             # Now look backwards for first matching opener:
             opener = closer.previous
             opener_found = False
-            while opener is not None and opener != openers_bottom[
-                    openers_bottom_index]:
+            while (opener is not None and opener != stack_bottom
+                   and opener != openers_bottom[openers_bottom_index]):
                 if opener.can_open and opener.delim_char == closer.delim_char:
                     # interior closer of size 2 can't match opener of size 1
                     # or of size 1 can't match 2
-- 
2.43.0


From 38cd23893985a58f3a7903df663d250db0e60a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:04 +0000
Subject: [PATCH 41/42] fix: a no-break space is part of the destination of a
 link

---
 md_toc/cmark/cmark_ctype_c.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/md_toc/cmark/cmark_ctype_c.py b/md_toc/cmark/cmark_ctype_c.py
index 88134d6..e2a6a89 100644
--- a/md_toc/cmark/cmark_ctype_c.py
+++ b/md_toc/cmark/cmark_ctype_c.py
@@ -21,7 +21,6 @@
 r"""The cmark implementation file."""
 
 import string
-import unicodedata
 
 from ..constants import parser as md_parser
 
@@ -33,11 +32,9 @@ from ..constants import parser as md_parser
 # Return True if c is a "whitespace" character as defined by the spec.
 # 0.30
 def _cmark_cmark_isspace(char: int) -> bool:
-    # A Unicode whitespace character is any code point in the Unicode Zs
-    # general category, or a tab (U+0009), line feed (U+000A), form feed
-    # (U+000C), or carriage return (U+000D).
-    return (unicodedata.category(chr(char)) == 'Zs'
-            or chr(char) in ['\u0009', '\u000A', '\u000C', '\u000D'])
+    # Only ASCII characters: Unicode whitespace, such as U+00A0, is part of
+    # link destinations.
+    return chr(char) in ['\u0009', '\u000A', '\u000C', '\u000D', '\u0020']
 
 
 # Return True if c is an ascii punctuation character.
-- 
2.43.0


From 4f0787a4162bcd3b296159724e809ea7ec400c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:26 +0000
Subject: [PATCH 42/42] fix: only ASCII digits number the entries of a TOC

---
 md_toc/generic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/md_toc/generic.py b/md_toc/generic.py
index 3de9788..caa924c 100644
--- a/md_toc/generic.py
+++ b/md_toc/generic.py
@@ -244,7 +244,7 @@ def _detect_toc_list(line: str) -> bool:
     # https://spec.commonmark.org/0.30/#example-289
     match: bool = True
     if re.fullmatch(
-            r' {0,3}([-+*]|' + r'\d' + '+[.' + r'\)' +
+            r' {0,3}([-+*]|' + r'[0-9]' + '+[.' + r'\)' +
             '])\u0020((?![\u0020\u0009\u000b]+).*)', line) is None:
         match = False
 
-- 
2.43.0

