"""Reference model: what md-toc must do, written from the specifications, not from its code.

Sources: CommonMark 0.29 (GFM) and 0.30 for ATX headings, fenced code blocks, raw HTML
and emphasis; html-pipeline's TOC filter and GitLab's documentation for slugs; redcarpet's
markdown.c/html.c; md-toc's own documentation for options, markers and errors.
"""
import re
import string
import unicodedata

FAMILY = ('github', 'commonmarker', 'gitlab', 'cmark', 'goldmark')
ALL = FAMILY + ('redcarpet',)
TABBED = frozenset(('gitlab', 'cmark', 'goldmark'))  # CommonMark 0.30: tabs are blanks too
MARKER = '<!--TOC-->'


class Err(Exception):
    """Carries the name of the documented error."""


def split_lines(text):
    """Lines without their endings; LF, CR and CRLF end a line, nothing else does."""
    parts = re.split('\r\n|\r|\n', text)
    if parts and parts[-1] == '':
        parts.pop()
    return parts


# ------------------------------------------------------------------ headings

def atx(line, parser):
    """(level, text) or None."""
    if parser == 'redcarpet':
        return atx_redcarpet(line)
    blanks = ' \t' if parser in TABBED else ' '
    body = line.lstrip(' ')
    if len(line) - len(body) > 3:
        return None
    rest = body.lstrip('#')
    level = len(body) - len(rest)
    if not 1 <= level <= 6:
        return None
    if rest and rest[0] not in blanks:
        return None
    rest = rest.strip(blanks)
    head = rest.rstrip('#')
    if head == '':
        return level, ''
    if head != rest and head[-1] in blanks:
        return level, head.rstrip(blanks)
    return level, rest


def atx_redcarpet(line):
    rest = line.lstrip('#')
    level = len(line) - len(rest)
    if not 1 <= level <= 6 or rest[:1] != ' ':
        return None
    text = rest.lstrip(' ').rstrip('#').rstrip(' ')
    # All hashes and blanks: nothing left.
    if text == '':
        return None
    return level, text


def fence_open(line, parser):
    body = line.lstrip(' ')
    if len(line) - len(body) > 3 or body[:1] not in ('`', '~') or body == '':
        return None
    c = body[0]
    info = body.lstrip(c)
    n = len(body) - len(info)
    if n < 3 or (c == '`' and '`' in info):
        return None
    return c, n


def fence_close(line, fence, parser):
    c, n = fence
    body = line.lstrip(' ')
    if len(line) - len(body) > 3:
        return False
    body = body.rstrip(' \t' if parser in TABBED else ' ')
    return len(body) >= n and body == c * len(body)


def headings(lines, parser):
    """[(line number, level, text)] of the document, fences taken into account."""
    out = []
    fence = None
    for i, line in enumerate(lines):
        if parser != 'redcarpet':
            if fence is not None:
                if fence_close(line, fence, parser):
                    fence = None
                continue
            fence = fence_open(line, parser)
            if fence is not None:
                continue
        h = atx(line, parser)
        if h is not None:
            out.append((i, h[0], h[1]))
    return out


# ------------------------------------------------------------------ inline

PUNCT = frozenset(string.punctuation)


def is_space(c):
    return c in '\t\n\f\r' or unicodedata.category(c) == 'Zs'


def is_punct(c):
    return c in PUNCT or unicodedata.category(c).startswith('P')


AUTOLINK = re.compile(
    r'<[A-Za-z][A-Za-z0-9.+-]{1,31}:[^\x00-\x20<>]*>'
    r'''|<[a-zA-Z0-9.!#$%&'*+/=?^_`{|}~-]+@[a-zA-Z0-9](?:[a-zA-Z0-9-]{0,61}[a-zA-Z0-9])?'''
    r'(?:\.[a-zA-Z0-9](?:[a-zA-Z0-9-]{0,61}[a-zA-Z0-9])?)*>')

_ATTR = (r'(?:[ \t\v\f]+[a-zA-Z_:][a-zA-Z0-9:._-]*'
         r'''(?:[ \t\v\f]*=[ \t\v\f]*(?:[^ \t\v\f"'=<>`\x00]+|'[^'\x00]*'|"[^"\x00]*"))?)''')  # as in cmark's scanners, which see no NUL
OPEN_TAG = r'<[A-Za-z][A-Za-z0-9-]*' + _ATTR + r'*[ \t\v\f]*/?>'
CLOSE_TAG = r'</[A-Za-z][A-Za-z0-9-]*[ \t\v\f]*>'
COMMENT = r'<!--(?!-?>)(?:(?!--).)*-->'
PI = r'<\?.*?\?>'
DECL = r'<![A-Z]+[ \t\v\f]+[^>]*>'
CDATA = r'<!\[CDATA\[.*?\]\]>'
HTML = re.compile('|'.join((OPEN_TAG, CLOSE_TAG, COMMENT, PI, DECL, CDATA)), re.S)
# CommonMark 0.30: no blank is needed after the name.
HTML30 = re.compile('|'.join((OPEN_TAG, CLOSE_TAG, COMMENT, PI, r'<![A-Z][^>]*>', CDATA)), re.S)
DISALLOWED = frozenset('title textarea style xmp iframe noembed noframes script plaintext'.split())


def strip_html(text, parser):
    def sub(m):
        t = re.match(r'</?([A-Za-z][A-Za-z0-9-]*)', m.group())
        if t and parser in ('github', 'commonmarker') and t.group(1).lower() in DISALLOWED:
            return m.group()
        return ''
    return (HTML30 if parser in TABBED else HTML).sub(sub, text)


def link_tail(s, i, end):
    """Where the inline link whose text ends before s[i] ends, or None."""
    def blanks(k):
        while k < end and s[k] in ' \t':
            k += 1
        return k

    if i >= end or s[i] != '(':
        return None
    i = blanks(i + 1)
    if i < end and s[i] == '<':
        m = re.compile(r'<(?:[^<>\\]|\\.)*>', re.S).match(s, i)
        if m is None:
            return None
        k = m.end()
    else:
        depth = 0
        k = i
        while k < end and s[k] not in ' \t':
            if s[k] == '\\' and k + 1 < end and s[k + 1] in PUNCT:
                k += 1
            elif s[k] == '(':
                depth += 1
            elif s[k] == ')':
                if depth == 0:
                    break
                depth -= 1
            k += 1
        if depth:
            return None
    t = blanks(k)
    if t > k:
        m = re.compile(r'''"(?:[^"\\]|\\.)*"|'(?:[^'\\]|\\.)*'|\((?:[^()\\]|\\.)*\)''', re.S).match(s, t)
        if m is not None:
            t = blanks(m.end())
    return t + 1 if t < end and s[t] == ')' else None


def pair(delims, bottom, gone):
    """Pair up the delimiters from index bottom on, then forget them."""
    k = bottom
    while k < len(delims):
        d = delims[k]
        if not d[5] or d[2] <= d[1]:
            k += 1
            continue
        o = k - 1
        while o >= bottom:
            e = delims[o]
            if (e[0] == d[0] and e[4] and e[2] > e[1]
                    and not ((e[5] or d[4]) and (e[3] + d[3]) % 3 == 0
                             and not (e[3] % 3 == 0 and d[3] % 3 == 0))):
                break
            o -= 1
        if o < bottom:
            if not d[4]:
                del delims[k]
            else:
                k += 1
            continue
        e = delims[o]
        n = 2 if e[2] - e[1] >= 2 and d[2] - d[1] >= 2 else 1
        gone.update(range(e[2] - n, e[2]))
        gone.update(range(d[1], d[1] + n))
        e[2] -= n
        d[1] += n
        del delims[o + 1:k]
        k = o + 1
        if e[2] == e[1]:
            del delims[o]
            k -= 1
        if d[2] == d[1]:
            del delims[k]
    del delims[bottom:]


def emphasis(text, cmark_cache=False):
    """Indices of the delimiters that CommonMark turns into (strong) emphasis.

    There are no link reference definitions: only inline links are links.  cmark_cache
    reproduces a shortcut of the C library: once a run of backticks was found to have no
    closer, a run whose length closed a code span before is taken to have none either.
    """
    last = {} if cmark_cache else None
    scanned = False
    end = len(text)
    while end and is_space(text[end - 1]):
        end -= 1
    s = text[:end]
    delims = []  # [char, start, stop (exclusive), original length, can_open, can_close]
    brackets = []  # [image, active, number of delimiters before]
    gone = set()
    i = 0
    while i < end:
        c = s[i]
        if c == '\\' and i + 1 < end and s[i + 1] in PUNCT:
            i += 2
        elif c == '`':
            j = i
            while j < end and s[j] == '`':
                j += 1
            n = j - i
            k = j
            close = None
            if scanned and last is not None and last.get(n, 0) <= j:
                k = end
            while k < end:
                if s[k] != '`':
                    k += 1
                    continue
                m = k
                while m < end and s[m] == '`':
                    m += 1
                if last is not None:
                    last[m - k] = k
                if m - k == n:
                    close = m
                    break
                k = m
            if close is None:
                scanned = True
            i = close if close is not None else j
        elif c == '<':
            m = AUTOLINK.match(s, i) or HTML.match(s, i)
            i = m.end() if m else i + 1
        elif c in '*_':
            j = i
            while j < end and s[j] == c:
                j += 1
            before = s[i - 1] if i else '\n'
            after = s[j] if j < end else '\n'
            left = not is_space(after) and (not is_punct(after) or is_space(before)
                                            or is_punct(before))
            right = not is_space(before) and (not is_punct(before) or is_space(after)
                                              or is_punct(after))
            if c == '*':
                can_open, can_close = left, right
            else:
                can_open = left and (not right or is_punct(before))
                can_close = right and (not left or is_punct(after))
            delims.append([c, i, j, j - i, can_open, can_close])
            i = j
        elif c == '[' or s.startswith('![', i):
            brackets.append([c == '!', True, len(delims)])
            i += 1 + (c == '!')
        elif c == ']' and brackets:
            i += 1
            image, active, bottom = brackets.pop()
            tail = link_tail(s, i, end) if active else None
            if tail is not None:
                i = tail
                pair(delims, bottom, gone)
                if not image:
                    for b in brackets:
                        b[1] = b[1] and b[0]
        else:
            i += 1

    pair(delims, 0, gone)
    return gone


def code_span_trap(text):
    """Does the C library's shortcut for backticks matter here?  The specification and the
    renderers that people use disagree then, and neither answer is called wrong."""
    text = text.replace('\x00', '')
    return '`' * 81 in text or text.count('`') > 4 and emphasis(text) != emphasis(text, True)


def remove_emphasis(text):
    text = text.replace('\x00', '')
    gone = emphasis(text)
    return ''.join(c for i, c in enumerate(text) if i not in gone)


# ------------------------------------------------------------------ anchors

def slugify(text, parser):
    """The last step: from visible text to slug."""
    s = ''.join('-' if c == ' ' else c for c in text.lower() if c.isalnum() or c in '_- ')
    if parser == 'gitlab':
        s = re.sub('-{2,}', '-', s)
    return s


def slug(text, parser):
    if parser == 'redcarpet':
        return slug_redcarpet(text)
    return slugify(remove_emphasis(strip_html(text, parser)), parser)


STRIPPED = frozenset(" -&+$,/:;=?@\"#{}|^~[]`\\*()%.!'")


def slug_redcarpet(text):
    t = re.sub(r'</?[A-Za-z0-9][^>]*>|&#?[A-Za-z0-9]+;', '', text)
    t = t.replace('<', '').replace('&', '')
    out = []
    pending = False
    for c in t:
        if c in STRIPPED or ord(c) > 127:
            pending = True
        else:
            if pending and out:
                out.append('-')
            pending = False
            out.append(c)
    t = ''.join(out)
    if t == '' and text:
        h = 5381
        for b in text.encode('utf-8'):
            h = (h * 33 + b) % 2**64
        return 'part-%x' % h
    return ''.join(chr(ord(c) + 32) if 'A' <= c <= 'Z' else c for c in t)


def escape_brackets(text):
    """A backslash before every square bracket that an even number of backslashes precedes."""
    out = []
    run = 0
    for c in text:
        if c in '[]' and run % 2 == 0:
            out.append('\\')
        out.append(c)
        run = run + 1 if c == '\\' else 0
    return ''.join(out)


def label_checked(text, parser):
    """Link label as written in the TOC, or Err."""
    if parser == 'redcarpet':
        n = len(text) - len(text.rstrip('\\'))
        return text + ' ' if n % 2 else text
    t = text + ' ' if text.endswith('\\') else text
    if t.strip(' \t\n\v\f\r') == '':
        raise Err('GithubEmptyLinkLabel')
    if len(t) > 999:
        raise Err('GithubOverflowCharsLinkLabel')
    return escape_brackets(t)


# ------------------------------------------------------------------ the TOC

def toc(text, ordered=False, no_links=False, no_indentation=False, no_list_coherence=False,
        keep_header_levels=3, parser='github', list_marker='-', skip_lines=0,
        constant_ordered_list=False, newline_string='\n', incoherent_ok=False):
    """('ok', toc) or ('exc', name).

    Under no_list_coherence the indentation of an incoherent document is not specified:
    callers pass incoherent_ok and compare without indentation.
    """
    lines = split_lines(text)[skip_lines:]
    if constant_ordered_list:
        ordered = True
    closers = ('.',) if parser == 'redcarpet' else ('.', ')')
    if ordered and list_marker not in closers:
        list_marker = '.'
    out = []
    numbers = {}
    indent = {}
    first = prev = 0
    seen = {}
    for i, level, raw in headings(lines, parser):
        try:
            lab = raw if no_links else label_checked(raw, parser)
        except Err as e:
            return ('exc', str(e))
        anchor = None
        if not no_links:
            base = slug(lab.rstrip(' ') if lab.endswith(' ') else lab, parser)
            if parser == 'redcarpet':
                anchor = base
            else:
                n = seen.get(base, 0)
                seen[base] = n + 1
                anchor = base if n == 0 else '%s-%d' % (base, n)
        if level > keep_header_levels:
            continue
        if not first:
            first = level
        coherent = level >= first and (not prev or level <= prev + 1)
        if not coherent and not no_indentation and not no_list_coherence:
            return ('exc', 'TocDoesNotRenderAsCoherentList')
        # numbering
        if level not in numbers or (prev and prev < level):
            numbers[level] = 0
        numbers[level] += 1
        n = 1 if constant_ordered_list else numbers[level]
        bullet = '%d%s' % (n, list_marker) if ordered else list_marker
        # indentation
        if no_indentation:
            pad = 0
        elif parser == 'redcarpet':
            pad = 4 * max(0, level - first)
        else:
            if not prev:
                indent[level] = (0, bullet)
            elif level > prev:
                p, b = indent[prev]
                indent[level] = (p + len(b) + 1, bullet)
            else:
                indent[level] = (indent.get(level, (0, ''))[0], bullet)
            pad = indent[level][0]
        out.append(' ' * pad + bullet + ' '
                   + (lab if no_links else '[%s](#%s)' % (lab, anchor)) + newline_string)
        prev = level
    return ('ok', ''.join(out))


def coherent(levels):
    return all(b >= levels[0] and b <= a + 1 for a, b in zip(levels, levels[1:]))


# ------------------------------------------------------------------ in place

LISTY = re.compile(r' {0,3}(?:[-+*]|[0-9]+[.)]) (?![ \t\v])')


def region_is_toc(region):
    """region: the lines strictly between two marker lines."""
    if ''.join(region).strip(' \t\v') == '':
        return True
    first = next((x for x in region[1:-1] if x.strip()), '')
    return LISTY.match(first) is not None


def locate(lines, marker):
    """('none',), ('single', i), ('pair', i, j) or ('before', i) in lines (no endings)."""
    m = marker.strip()
    pos = [i for i, x in enumerate(lines) if x.strip() == m]
    if not pos:
        return ('none',)
    if len(pos) == 1:
        return ('single', pos[0])
    for a, b in zip(pos, pos[1:]):
        if region_is_toc(lines[a + 1:b]):
            return ('pair', a, b)
    return ('before', pos[0])


def in_place(data, toc_text, marker, newline='\n'):
    """New content of a file (bytes in, bytes out) and whether the TOC was already there."""
    text = re.sub('\r\n|\r', '\n', data.decode('utf-8'))
    new = re.sub('\r\n|\r', '\n', toc_text)
    lines = text.split('\n')
    final_newline = lines[-1] == ''
    if final_newline:
        lines.pop()
    where = locate(lines, marker)
    same = new.strip() == existing(lines, where, marker)
    if where[0] == 'none':
        return data, same
    block = [marker, ''] + new.rstrip('\n').split('\n') + ['', marker]
    if where[0] == 'single':
        a, b = where[1], where[1] + 1
    elif where[0] == 'pair':
        a, b = where[1], where[2] + 1
    else:
        a = b = where[1]
    before, after = lines[:a], lines[b:]
    res = ''.join(x + '\n' for x in before + block) + '\n'.join(after)
    if after and final_newline:
        res += '\n'
    return res.replace('\n', newline).encode('utf-8'), same


def existing(lines, where, marker):
    if where[0] == 'single':
        return marker
    if where[0] == 'pair':
        return '\n'.join(lines[where[1] + 1:where[2]]).strip()
    return ''
