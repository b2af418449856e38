"""C06: exactly the emphasis delimiters that CommonMark pairs up are removed."""
import itertools
import re

from markdown_it import MarkdownIt

from .common import (Check, G, M, Part, Reject, Violation, build_text, mixtext, same, T)

MD = MarkdownIt('commonmark', {'html': False}).disable(['link', 'image', 'entity', 'escape'])


def has_link(t):
    return re.search(r'\]\(|\]\[|\]:|\[[^\]]*\]', t) is not None


def run_text(case):
    t, parser = case['text'], case['parser']
    if '\n' in t or '\r' in t or '[' in t or ']' in t:
        raise Reject()
    if M.HTML.search(t) or M.code_span_trap(t):
        raise Reject()
    want = M.remove_emphasis(t)
    same(T.api.remove_emphasis(t, parser), want, '%s: remove_emphasis(%r)' % (parser, t))
    if parser != 'redcarpet':
        same(T.api.build_anchor_link(t, {}, parser), M.slugify(want, parser), '%s: anchor of %r' % (parser, t))
    return want != t or '*' in t or '_' in t


def run_doc(case):
    """The anchor in the TOC."""
    t, parser = case['text'], case['parser']
    if '\n' in t or '\r' in t or M.HTML.search(t):
        raise Reject()
    h = M.atx('# ' + t, parser)
    try:
        lab = M.label_checked(h[1], parser)
    except M.Err:
        raise Reject()
    if M.HTML.search(lab) or M.code_span_trap(lab):
        raise Reject()
    want = M.slugify(M.remove_emphasis(lab.rstrip(' ') if lab.endswith(' ') else lab), parser)
    same(build_text('# ' + t + '\n', parser=parser), ('ok', '- [%s](#%s)\n' % (lab, want)), '%s: TOC' % parser)
    return '*' in t or '_' in t


def run_html(case):
    """Delimiters inside raw HTML are not delimiters."""
    t, parser = ''.join(case['parts']), case['parser']
    if '\n' in t or '\r' in t or M.code_span_trap(t):
        raise Reject()
    if re.search(r'\?\?>|\]\]\]>', t):
        # The C library does not see the end of these, the specification does.
        raise Reject()
    if '[' in t.replace('<![CDATA[', ''):
        raise Reject()
    want = M.remove_emphasis(t)
    same(T.api.remove_emphasis(t, parser), want, '%s: remove_emphasis(%r)' % (parser, t))
    left = M.strip_html(t, parser)
    if not M.code_span_trap(left) and not M.HTML.search(left) and '[' not in left:
        same(T.api.build_anchor_link(t, {}, parser), M.slugify(M.remove_emphasis(left), parser), '%s: anchor of %r' % (parser, t))
    return M.HTML.search(t) is not None and ('*' in t or '_' in t)


def run_links(case):
    """Emphasis inside, around and across inline links and images."""
    t, parser = ''.join(case['parts']), case['parser']
    if any(c < ' ' and c != '\t' or c == '\x7f' for c in t) or M.HTML.search(t) or M.code_span_trap(t) or t.count('(') > 32:
        raise Reject()
    want = M.remove_emphasis(t)
    same(T.api.remove_emphasis(t, parser), want, '%s: remove_emphasis(%r)' % (parser, t))
    same(T.api.build_anchor_link(t, {}, parser), M.slugify(want, parser), '%s: anchor of %r' % (parser, t))
    return '](' in t and ('*' in t or '_' in t)


LINK_POOL = ['[', '[', '](', '](b)', ')', '![', '*', '*', '_', '**', 'a', 'b', ' ', '(', ')', '"', "'", ' "c"', " 'd'", ' (e)', '<', '>', '](<x',
             '>)', '\\', '`', '](*)', '](_ "*")', '.', '](a(b)', ']', '\\)', '\\"', '\t', '[a][b]', '(*)', ' (*)', ' "c\\"d"', ' (e\\)f)', " 'g\\'",
             '](<\\>>)', '](\\(b)', '![i](j)', '[![k](l)](m)', '***', '__', '](<*>)', "]( 'x')", ']()', '](n )', '](n "c" )', " 'p' )", '<http://o*>', 'é', '\\[', '\\]', '!']


def gen_links(rng):
    pool = LINK_POOL if rng.random() < 0.5 else [rng.choice(LINK_POOL) for _ in range(5)] + ['*', '[', '](b)']
    return {'parts': [rng.choice(pool) for _ in range(G.size(rng, 1, 50, 8))], 'parser': rng.choice(M.FAMILY)}


def enum_links(tier):
    k = 0
    for n in range(1, 6 if tier == 'quick' else 7):
        for combo in itertools.product(('[', '*', 'a', '](b)', '![', ' '), repeat=n):
            if '*' in combo:
                k += 1
                yield {'parts': list(combo), 'parser': FAM[k % 5]}


HTML_POOL = ['<', '>', '/', ' ', 'a', 'b', '=', '"', "'", '<b', '</b', '<!--', '-->', '<?', '?>', '<!X ', '-', '!', '<b ', ' c="', "='", '\t', 'x', '/>',
             '<![CDATA[', ']]>', '*', '_', '*', '**', '_', '\\', '`', '<b c="*">', '<!--*-->', '<a _b>', '<http://a*b>', '<!X _>', '<?*?>', '<a b=_ c=*>',
             '<![CDATA[*]]>', '<!--->', '</a>', '.', '<a_b@c.d>']


def gen_html(rng):
    pool = HTML_POOL if rng.random() < 0.5 else [rng.choice(HTML_POOL) for _ in range(5)] + ['*', '>', '<b']
    return {'parts': [rng.choice(pool) if rng.random() < 0.93 else G.clean(G.html_piece(rng)) for _ in range(G.size(rng, 1, 60, 7))], 'parser': rng.choice(M.FAMILY)}


def visible(children):
    """The text that a renderer shows, delimiters of code spans put back."""
    out = []
    for c in children:
        if c.type == 'text':
            out.append(c.content)
        elif c.type == 'code_inline':
            return None
        elif c.type in ('em_open', 'em_close', 'strong_open', 'strong_close'):
            pass
        elif c.type in ('link_open', 'link_close', 'text_special'):
            return None
        else:
            return None
    return ''.join(out)


def run_renderer(case):
    """Differential: markdown-it-py's own emphasis algorithm, on texts without code spans."""
    t = case['text']
    if '\n' in t or '\r' in t or any(c in t for c in '`<[]\\&') or t != t.strip():
        raise Reject()
    v = visible(MD.parseInline(t)[0].children or [])
    if v is None:
        raise Reject()
    same(T.api.remove_emphasis(t, case['parser']), v, '%s: text shown for %r' % (case['parser'], t))
    return '*' in t or '_' in t


def run_any(case):
    """Any text, links included: only * and _ are ever removed."""
    t, parser = case['text'], case['parser']
    if '\n' in t or '\r' in t:
        raise Reject()
    got = T.api.remove_emphasis(t, parser)
    want = t.replace('\x00', '')
    k = 0
    for c in want:
        if k < len(got) and got[k] == c:
            k += 1
        elif c not in '*_':
            raise Violation('%s: remove_emphasis(%r) lost or changed %r: %r' % (parser, t, c, got))
    if k < len(got):
        raise Violation('%s: remove_emphasis(%r) is not the text without some delimiters: %r' % (parser, t, got))
    return '*' in t or '_' in t


def gen_any(rng):
    p = rng.random()
    t = G.emph(rng) if p < 0.4 else mixtext(rng)
    s = list(t)
    for _ in range(rng.randint(0, 6)):
        s.insert(rng.randrange(len(s) + 1), rng.choice(['[', ']', '](', ')', '](x)', '![', '[a](b "c")', '*', '_', '**', '<', '>', '](<', '"', "'",
                                                        '[a][b]', ']: ', '`', '&amp;', '\\', '<!--', '<a href="', '](/u \'*\')', 'http://x_y_']))
    return {'text': G.clean(''.join(s))[:600], 'parser': rng.choice(M.FAMILY)}


CONTEXTS = ['a*%sb*', '*a%s*b', 'a_%sb_', '_a%s_b', '%s_a_%s', '%s*a*%s', 'a%s**b**', '**a**%sb', '%s', '\\\\%s*a*', '*\\%s*']


def run_chars(case):
    """Every character next to delimiters."""
    cs, parser = G.charlist(case), case['parser']
    if cs is None:
        raise Reject()
    for c in cs:
        if c in '\n\r[]<`&':
            continue
        for shape in CONTEXTS:
            t = shape.replace('%s', c)
            want = M.remove_emphasis(t)
            same(T.api.remove_emphasis(t, parser), want, '%s: remove_emphasis(%r), character U+%04X' % (parser, t, ord(c)))
    return True


def enum_chars(tier):
    for i, cs in enumerate(G.chars(tier)):
        yield {'chars': cs, 'parser': FAM[i % 5]}


FAM = M.FAMILY


def enum_small(tier):
    k = 0
    for alpha, top in (('*_a .', 6 if tier == 'quick' else 8), ('*_a\\`', 6 if tier == 'quick' else 7),
                       ('*a `\u00e9(', 5 if tier == 'quick' else 6)):
        for n in range(1, top + 1):
            for combo in itertools.product(alpha, repeat=n):
                k += 1
                t = ''.join(combo)
                if '*' in t or '_' in t:
                    yield {'text': t, 'parser': FAM[k % 5]}


def enum_runs(tier):
    """Delimiter runs of 1 to 7 characters between words, spaces and punctuation."""
    seps = ['a', ' ', '.', 'a ', ' a', 'a.', '(a'] if tier == 'quick' else ['a', ' ', '.', 'a ', ' a', 'a.', '(a', '\u00e9', '\u3000', '—']
    top = 5 if tier == 'quick' else 7
    runs = [c * n for c in '*_' for n in range(1, top + 1)]
    k = 0
    for s0 in ('', 'a', '.'):
        for r1 in runs:
            for s1 in seps:
                for r2 in runs:
                    for s2 in ['', 'a', '.', ' a']:
                        for r3 in [''] + (runs if s2 else []):
                            k += 1
                            if tier == 'quick' and r3 and k % 3:
                                continue
                            yield {'text': s0 + r1 + s1 + r2 + s2 + r3, 'parser': FAM[k % 5]}


def gen_text(rng):
    t = G.no_html(G.emph(rng)).replace('[', '').replace(']', '')
    if M.code_span_trap(t):
        t = t.replace('`', '')
    return {'text': G.clean(t), 'parser': rng.choice(M.FAMILY)}


def gen_doc(rng):
    t = G.no_html(G.emph(rng))
    if rng.random() < 0.3:
        s = list(t)
        for _ in range(rng.randint(1, 4)):
            s.insert(rng.randrange(len(s) + 1), rng.choice(['[', ']', '\\[', '](x)', '\\\\', '!']))
        t = G.no_html(''.join(s))
    return {'text': G.clean(t).strip(' \t') or '*a*', 'parser': rng.choice(M.FAMILY)}


def gen_renderer(rng):
    pool = ['*', '**', '_', '__', '***', '*', '_', 'a', 'b', ' ', ' ', '.', '(', ')', '-', ',', '"', '1', '«', '»', '—', 'é', '日',
            '\u00a0', '\u3000', '!', '/', ':', '~', '^', '|', '+', '=', '$', '0', '#']
    if rng.random() < 0.5:
        pool = [rng.choice(pool) for _ in range(4)] + ['*', '_', 'a']
    t = ''.join(rng.choice(pool) for _ in range(G.size(rng, 1, 120, 9))).strip()
    return {'text': t or '*a*', 'parser': rng.choice(M.FAMILY)}


def gen_limits(rng):
    """Autolinks and link destinations at the limits of their rules."""
    d = rng.choice(['*', '_', '**', '__'])
    inner = rng.choice([d + 'b' + d, d, 'b' + d, d + 'b', '/' + d + 'b' + d + '/', '', 'b ' + d + 'c' + d])
    n = rng.choice((1, 2, 2, 3, 4, 10, 30, 31, 31, 32, 32, 33, 34, 62, 63, 63, 64, 65))
    word = lambda cs, k: ''.join(rng.choice(cs) for _ in range(k))  # noqa: E731
    low = 'ab'
    p = rng.random()
    if p < 0.4:
        body = rng.choice('aZ') + word('aZ09.+-' if rng.random() < 0.4 else low, n - 1)
        if rng.random() < 0.2:
            body = rng.choice(['1', '+', '-', '.', 'é', 'ı', '_', '']) + body[1:]
        if rng.random() < 0.1:
            k = rng.randrange(len(body) + 1)
            body = body[:k] + rng.choice('_/ ~é') + body[k:]
        t = '<' + body + rng.choice([':', ':', ':', ':', '', '::', ' :']) + inner + rng.choice(['', '', '', '\x7f', 'é', '\u3000', '\t', '\x01', '"', '\\']) + '>'
    elif p < 0.75:
        local = rng.choice([d + 'a' + d, d, 'a' + d + 'b' + d, word(".!#$%&'*+/=?^_`{|}~-az09", rng.randint(1, 6)).replace('`', '')])
        if rng.random() < 0.15:
            local += rng.choice(['"', '(', ',', ':', ';', '\\', '@', ' ', 'é'])
        labels = []
        for _ in range(rng.choice((1, 1, 2, 3))):
            x = word(low + '-' if rng.random() < 0.3 else low, n if rng.random() < 0.6 else rng.randint(1, 5))
            labels.append(x + rng.choice(['', '', '', '', '-', '_']))
        t = '<' + local + '@' + '.'.join(labels) + rng.choice(['', '', '', '.', '..a']) + '>'
    else:
        k = min(n, 32)
        o = '(' * k
        t = rng.choice(['[%s](%s%s%s)', '![%s](%s%s%s)', '[%s](x%s%s%sy)', '[%s](%s%s%s "t")']) % (rng.choice([d + 'a', 'a' + d, d + 'a' + d]), o, inner.replace(' ', ''),
            ')' * (k + rng.choice((0, 0, 0, -1, 1))))
    t = rng.choice(['', '', 'a ', d, d + 'c']) + t + rng.choice(['', '', ' a', d, 'c' + d])
    return {'parts': [G.clean(t)], 'parser': rng.choice(M.FAMILY)}


def run_limits(case):
    t = case['parts'][0]
    if '\n' in t or '\r' in t or M.HTML.search(t) or M.code_span_trap(t) or t.count('(') > 32 or any(c < ' ' or c == '\x7f' for c in t) and '](' in t:
        raise Reject()
    want = M.remove_emphasis(t)
    same(T.api.remove_emphasis(t, case['parser']), want, '%s: remove_emphasis(%r)' % (case['parser'], t))
    return '*' in t or '_' in t


EDITED = ['<b>', '</b>', '<b c>', '<bc d="e">', "<bc d='e'>", '<b c=d/>', '<b c = d >', '<b c=d e=f>', '</bc >', '<!--a-->', '<!--ab--cd-->', '<!--a-b-->', '<?ab?>',
          '<?a?b>c?>', '<!AB cd>', '<![CDATA[ab]]>', '<![CDATA[a]b]]c]]>', '<title>', '<ab:c>', '<a+b.c-d:e>', '<a@b>', '<a.b+c@d-e.f>', '[a](b)', '[a](<b>)', '[a](b "c")',
          "[a](b 'c')", '[a](b (c))', '[a](b(c)d)', '![a](b)', '`a`', '``a`b``', '[a][b]', '\\*', '[a\\]b](c)', '[a](b\\)c)', '[a](b "\\"c")']
EVERY = [chr(i) for i in range(1, 128) if chr(i) not in '\n\r\v\f'] + list('\x80\x85\xa0\xaaéßµ²ſKİıａ１٣\u2028\u2029\u3000\ufeff\ufffd\U0001f600')


def run_edits(case):
    """A construct with one character put in, replaced or taken away, and delimiters inside and around."""
    base, k, how, c, d = case['base'], case['at'], case['how'], case['char'], case['delim']
    v = base[:k] + (c if how != 'delete' else '') + base[k + (how != 'insert'):]
    i = 1 + case['inside'] % max(1, len(v))
    t = 'x ' + d + 'u' + v[:i] + d + v[i:] + ' z' + d
    if M.code_span_trap(t) or re.search(r'\?\?>|\]\]\]>', t):
        raise Reject()
    same(T.api.remove_emphasis(t, case['parser']), M.remove_emphasis(t), '%s: remove_emphasis(%r)' % (case['parser'], t))
    return v != base


def enum_edits(tier):
    n = 0
    for base in EDITED:
        for k in range(len(base) + 1):
            for how in ('insert', 'replace', 'delete'):
                if how != 'insert' and k == len(base):
                    continue
                for c in (EVERY if how != 'delete' else ['']):
                    n += 1
                    # A place inside the construct, all of them in the thorough tier.
                    for i in ((n % 7, n % 11) if tier == 'quick' else range(len(base) + 1)):
                        yield {'base': base, 'at': k, 'how': how, 'char': c, 'delim': '*' if n % 5 else '**', 'inside': i, 'parser': FAM[n % 5]}


WIDE = ['*[a](%s*)', '*[a](%s(b)*)', '*[a](<%s*>)', '*[a](b "%s*")', "*[a](b '%s*')", '*[a](b (%s*))', '*[%s*](b)', '*![%s](c*)', '*<a b="%s*">', "*<a b='%s*'>", '*<a b=%s*>',
        '*<a%s*>', '*<a %s="*">', '*<!--%s*-->', '*<?%s*?>', '*<!X %s*>', '*<![CDATA[%s*]]>', '*<a:%s*>', '*<%s@b.c>*', '*%s*', '_%s_', '**a%s**b', 'a%s*b*', '*a*%sb', '*a %s b', '%s',
        'a_%s_b', '_a_%s', '*a](%s*)', '*[a](b%s "*")', '*[a](%sb*)', '*[a](b "c"%s*)', '</a%s>*b*', '*a\\%s*']


def run_wide(case):
    """One long piece in each construct."""
    shape, unit, n = case['shape'], case['unit'], case['n']
    if shape.count('%') != 1 or '%s' not in shape or n < 0 or n * len(unit) > 100000:
        raise Reject()
    t = shape % (unit * n)
    if '\n' in t or '\r' in t or '`' in t or t.count('(') > 32 and ')' * 33 in t or re.search(r'\?\?>|\]\]\]>', t):
        raise Reject()
    same(T.api.remove_emphasis(t, case['parser']), M.remove_emphasis(t), '%s: remove_emphasis(%r with %d times %r)' % (case['parser'], shape, n, unit))
    return n > 0


def enum_wide(tier):
    k = 0
    for n in G.widths(11000 if tier == 'quick' else 70000):
        for shape in WIDE:
            for unit in ['x', 'x', 'é', ' ', '.', '-', '(b)', '\\)', '*', '_', 'x y', '\\\\']:
                if unit in '*_' and n > 600:
                    continue
                k += 1
                yield {'shape': shape, 'unit': unit, 'n': n, 'parser': FAM[k % 5]}


def gen_long(rng):
    unit = ''.join(rng.choice(['*', '_', 'a', ' ', '**', '.', '`']) for _ in range(rng.randint(2, 6)))
    if rng.random() < 0.3:
        # Long runs: of backticks around something, of delimiters.
        k = G.mined_int(rng, 2, 79) if rng.random() < 0.5 else None
        run = '`' * (k or rng.choice((4, 5, 7, 8, 9, 12, 15, 16, 17, 20, 31, 32, 33, 40, 63, 64, 65, 80)))
        t = rng.choice(['', 'a ', '*', '_b_ ']) + run + rng.choice(['*a*', '_a_', ' **a** ', '*', 'a`*b*`']) + rng.choice([run, run, run[1:], run + '`']) + rng.choice(['', ' *c*', '*'])
        if M.code_span_trap(t):
            t = t.replace('`', '*')
        return {'text': t, 'parser': rng.choice(M.FAMILY)}
    n = G.mined_int(rng, 50, 900) or rng.choice((60, 130, 260, 520, 900))
    t = (unit * n)[:n] + rng.choice(['', '*', '_', ' *a*'])
    if M.code_span_trap(t):
        t = t.replace('`', 'x')
    return {'text': t, 'parser': rng.choice(M.FAMILY)}


CHECK = Check('C06', 'texts made of * and _ runs, words, blanks, punctuation, escapes, code spans and autolinks; '
              'non-trivial: the text contains * or _', [
                  Part('small', run_text, enum=enum_small, rule='every text of up to 5-6 (thorough 6-8) characters over three small alphabets'),
                  Part('runs', run_text, enum=enum_runs, rule='two and three delimiter runs of 1-5 (7) characters in all contexts (a third of the triples in the quick tier)'),
                  Part('chars', run_chars, enum=enum_chars, rule='every (quick: every rare or low) code point in 11 places next to delimiters'),
                  Part('random', run_text, gen_text, quick=90000, rule='random texts against the reference model'),
                  Part('doc', run_doc, gen_doc, quick=30000, rule='the anchor that ends up in the TOC, brackets included'),
                  Part('renderer', run_renderer, gen_renderer, quick=60000, rule='differential against markdown-it-py'),
                  Part('any', run_any, gen_any, quick=40000, rule='any text, links and HTML included: nothing but * and _ is removed'),
                  Part('html', run_html, gen_html, quick=60000, rule='delimiters inside and around raw HTML'),
                  Part('smalllinks', run_links, enum=enum_links, rule='every sequence of up to 5 (6) of six pieces: brackets, an end of link, a delimiter, a letter, a blank'),
                  Part('links', run_links, gen_links, quick=90000, rule='emphasis inside, around and across inline links and images'),
                  Part('limits', run_limits, gen_limits, quick=25000, rule='schemes, domains and nested parentheses at the limits of their lengths and alphabets'),
                  Part('edits', run_edits, enum=enum_edits, rule='tags, links, autolinks and code spans with each character put in, replaced or taken away at each place'),
                  Part('wide', run_wide, enum=enum_wide, rule='one piece of up to 10000 (66000) characters in each of 34 constructs, lengths around powers of two and round numbers'),
                  Part('long', run_text, gen_long, quick=900, thorough=8000, rule='texts of hundreds of delimiters'),
              ], ['the reference model of CommonMark emphasis, cross-checked with markdown-it-py in part renderer',
                  'texts where a shortcut of the C library for unclosed backtick runs departs from the specification are left out'])
