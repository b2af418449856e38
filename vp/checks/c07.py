"""C07: inline HTML never leaks into an anchor."""
import itertools
import re

from .common import (Check, G, M, Part, Reject, Violation, build_text, same, simple, T)

GFM = ('github', 'commonmarker')


def pieces_text(case, disallowed_stays=False):
    out = []
    for kind, s in case['pieces']:
        if kind == 'html':
            continue
        out.append(s)
    return ''.join(out)


def run_pieces(case):
    """Text, HTML constructs and look-alikes put one after the other."""
    parser = case['parser']
    src = ''.join(s for _, s in case['pieces'])
    if '\n' in src or '\r' in src:
        raise Reject()
    want = ''
    for kind, s in case['pieces']:
        if kind == 'html':
            if M.HTML.fullmatch(s) is None or M.strip_html(s, 'cmark') != '':
                raise Reject()
        elif kind == 'gfm':
            if M.HTML.fullmatch(s) is None:
                raise Reject()
            want += s if parser in GFM else ''
        else:
            if kind == 'text' and ('<' in s or '>' in s):
                raise Reject()
            if kind == 'like' and s not in LOOK and s not in LOOK_GFM:
                raise Reject()
            want += '' if s in LOOK_GFM and parser not in GFM else s
    # The pieces must not combine into something else.
    if M.strip_html(src, parser) != want:
        raise Reject()
    same(T.api.remove_html_tags(src, parser), want, '%s: remove_html_tags(%r)' % (parser, src))
    if not any(c in want for c in '*_`'):
        same(T.api.build_anchor_link(src, {}, parser), M.slugify(want.replace('\x00', ''), parser), '%s: anchor of %r' % (parser, src))
    return any(k in ('html', 'gfm') for k, _ in case['pieces'])


def run_doc(case):
    parser = case['parser']
    src = ''.join(s for _, s in case['pieces'])
    if '\n' in src or '\r' in src or M.code_span_trap(src):
        raise Reject()
    # Headings as authors write them: the text of an entry keeps the HTML, the anchor does not.
    want = M.toc('# ' + src + '\n', parser=parser)
    if want[0] != 'ok':
        raise Reject()
    plain = ''.join(s for k, s in case['pieces'] if k == 'text' or (k == 'gfm' and parser in GFM) or k == 'like')
    if '[' in src or ']' in src or '*' in plain or '_' in plain or '`' in plain or '\\' in src or src != src.strip(' \t') or '#' in src:
        raise Reject()
    if M.strip_html(src, parser) != plain:
        raise Reject()
    same(build_text('# ' + src + '\n', parser=parser),
         ('ok', '- [%s](#%s)\n' % (src, M.slugify(plain.replace('\x00', ''), parser))), '%s: TOC of %r' % (parser, src))
    return any(k != 'text' for k, _ in case['pieces'])


LOOK = ['<3', ' < b ', '<>', '< b>', '</ b>', '<1>', '<$x>', '</>', '<b ', '<-', '<=>', '<b c="d', "<a b='c>", '<b/ >', '<é>',
        '<a =b>', '<a b=>', '</b c>', '<!-->', '<!--->', '<!-- a', '<?', '<! x>', '<b*>', '<a"b">', '<a b="c"d>', '<b. c>', '</3>',
        '<a b==c>', '<a ,>', '<a b=<>', '<a b=`c`>', '<a b=\'\'\'>', '<_a>', '<a  /b>', '</b/>', '<!-- a -- b -->', '<!--a--->', '<!----a-->', '<![CDATA[', '<![CDATA[a]>', '<![cdata[a]]>', '<! [CDATA[a]]>', '<!>',
        '<?a>', '<!x y>', '<!--a-- >']

# Not HTML to GFM (0.29), but declarations in CommonMark 0.30.
LOOK_GFM = ['<!X>', '<!XY>', '<!DOCTYPE>', '<!X1 y>']

DIS = ['title', 'textarea', 'style', 'xmp', 'iframe', 'noembed', 'noframes', 'script', 'plaintext']
# Names that are allowed although they look like the disallowed ones.
NEAR_DIS = [x for n in DIS for x in (n[:-1], n[1:], n + n[-1], n + 's', n + '1', n + '-', n + '-x', 'x' + n, 'x-' + n, n + n, n.upper() + 'S', n[::-1], n[:2] + n[3:])]


def enum_names(tier):
    k = 0
    for n in DIS:
        for name in (n, n.upper(), n.capitalize(), n[:-1] + n[-1].upper()):
            for shape in ('<%s>', '</%s>', '<%s a="b">', '<%s/>', '</%s  >', '<%s x>', '<%s />', '<%s\t>'):
                for parser in M.FAMILY:
                    yield {'pieces': [['text', 'a'], ['gfm', shape % name], ['text', 'b']], 'parser': parser}
    for name in NEAR_DIS + ['b', 'pre', 'svg', 'object', 'embed', 'frame', 'meta', 'link', 'base', 'form', 'noscript', 'template', 'body', 'head', 'html', 'details']:
        for shape in ('<%s>', '</%s>', '<%s a="b">', '<%s/>', '<%s x>', '<%s\t/>'):
            for parser in M.FAMILY:
                yield {'pieces': [['text', 'a'], ['html', shape % name], ['text', 'b']], 'parser': parser}


EVERY = [chr(i) for i in range(128) if chr(i) not in '\n\r\v\f'] + list('\x80\x85\xa0\xaaéßµ²ſKİıａ１٣\u2028\u2029\u3000\ufeff\ufffd\U0001f600')
BASES = ['<b>', '</b>', '<b c>', '<bc d="e">', "<bc d='e'>", '<b c=d/>', '<b c = d >', '<b c=d e=f>', '</bc >', '<!--a-->', '<!--ab--cd-->', '<!--a-b-->', '<?ab?>',
         '<?a?b>c?>', '<!AB cd>', '<!A>', '<![CDATA[ab]]>', '<![CDATA[a]b]]c]]>']


def run_char(case):
    """Every construct with one character put in, replaced, doubled or taken away."""
    base, k, how, c = case['base'], case['at'], case['how'], case['char']
    t = base[:k] + (c if how != 'delete' else '') + base[k + (how != 'insert'):]
    src = 'x' + t + 'y'
    same(T.api.remove_html_tags(src, case['parser']), M.strip_html(src, case['parser']), '%s: remove_html_tags(%r)' % (case['parser'], src))
    return t != base


def enum_char(tier):
    n = 0
    for base in BASES + ['<%s>' % d for d in DIS] + ['</%s>' % d for d in DIS]:
        for k in range(len(base) + 1):
            for how in ('insert', 'replace', 'delete'):
                if how != 'insert' and k == len(base):
                    continue
                for c in (EVERY if how != 'delete' else ['']):
                    n += 1
                    for parser in (GFM[n % 2], ('cmark', 'gitlab', 'goldmark')[n % 3]):
                        yield {'base': base, 'at': k, 'how': how, 'char': c, 'parser': parser}
            if k < len(base) and base[k].isalpha():
                for parser in GFM:
                    yield {'base': base, 'at': k, 'how': 'replace', 'char': base[k].swapcase(), 'parser': parser}


def piece(rng, kind):
    if kind == 'text':
        return G.plain(rng, 3).replace('#', '')
    if kind == 'like':
        return rng.choice(LOOK + LOOK_GFM)
    if kind == 'gfm':
        n = rng.choice(DIS)
        n = rng.choice([n, n.upper(), n.capitalize()])
        return rng.choice(['<%s>', '</%s>', '<%s a="b">', '<%s/>', '</%s  >', '<%s x>', '<%s />']) % n
    return G.html_piece(rng, NEAR_DIS if rng.random() < 0.15 else None)


def gen_pieces(rng):
    n = 1 + G.size(rng, 0, 60, 3)
    kinds = [rng.choice(['text', 'text', 'html', 'html', 'html', 'gfm', 'like']) for _ in range(n)]
    if rng.random() < 0.5:
        kinds = [k if k != 'like' else 'text' for k in kinds]
    return {'pieces': [[k, G.clean(piece(rng, k))] for k in kinds], 'parser': G.parser_of(rng, True)}


def gen_many(rng):
    """Hundreds of constructs in one text."""
    n = G.mined_int(rng, 30, 600) or rng.choice((35, 70, 130, 300))
    some = [['text', 'a'], ['text', ' b '], ['html', '<b>'], ['html', '</b>'], ['html', '<!--c-->'], ['html', '<?d?>'], ['html', '<i e="f">'], ['gfm', '<xmp>'], ['html', '<br/>']]
    some = rng.sample(some, rng.randint(2, len(some)))
    ps = [rng.choice(some) for _ in range(n)]
    if rng.random() < 0.5:
        ps.append(['html', G.clean(piece(rng, 'html'))])
    return {'pieces': ps + [['text', 'z']], 'parser': G.parser_of(rng, True)}


def gen_doc(rng):
    ps = []
    for _ in range(rng.randint(1, 5)):
        ps.append(['text', simple(rng) + rng.choice(['', ' '])])
        k = rng.choice(['html', 'html', 'gfm'])
        ps.append([k, G.clean(piece(rng, k)).replace('[', '').replace(']', '').replace('\\', '').replace('#', '')])
    return {'pieces': ps, 'parser': G.parser_of(rng, True)}


WS = ['', ' ', '  ', '\t', ' \t ']


def enum_tags(tier):
    """Open tags with every shape of up to two attributes, closing tags, comments."""
    k = 0
    values = ['', '=v', '="v"', "='v'", ' = v', '= "a>b"', "=''", '="\'"', "='\"'", '="<b>"', '=a/b', '="é ` ="', '=*_*']
    for name in ['b', 'H1', 'x-y', 'Z9-']:
        for w1 in [' ', '  ', '\t', ' \t']:
            for an in ['a', '_a', ':a', 'A-b.c:d_e', 'é'][:4]:
                for v in values:
                    for w2 in ['', ' ', '\t']:
                        for end in ['>', '/>']:
                            if end == '/>' and v in ('=v', '=a/b', ' = v', '=*_*') and w2 == '':
                                w2x = ' '
                            else:
                                w2x = w2
                            k += 1
                            yield {'pieces': [['text', 'Foo '], ['html', '<' + name + w1 + an + v + w2x + end], ['text', ' bar']],
                                   'parser': M.FAMILY[k % 5]}
    for name in ['b', 'H1', 'x-y', 'q']:
        for w in WS:
            for s in ('<%s%s>', '</%s%s>', '<%s%s/>'):
                k += 1
                yield {'pieces': [['text', 'a'], ['html', s % (name, w)], ['text', 'B']], 'parser': M.FAMILY[k % 5]}
    for body in ['', ' ', 'a', ' a ', 'a-b', ' <b> ', 'a>b', ' - ', 'é', '<!', ' -> ', ' a - - b', '![CDATA[', '?>', '"', "'", '-a', '!>'][:]:
        if body.startswith(('>', '->')) or body.endswith('-') or '--' in body:
            continue
        for p in M.FAMILY:
            yield {'pieces': [['text', 'x '], ['html', '<!--' + body + '-->'], ['text', ' y']], 'parser': p}
    for body in ['', 'a', 'php echo ', 'a?b', '> ', ' <b> ', '??']:
        for p in M.FAMILY:
            if M.HTML.fullmatch('<?' + body + '?>'):
                yield {'pieces': [['text', 'x '], ['html', '<?' + body + '?>'], ['text', ' y']], 'parser': p}
    for d in ['<!DOCTYPE html>', '<!X y>', '<!ELEMENT br EMPTY>', '<!A  b c>', '<!DOCTYPE\thtml>', '<!X >', '<!XYZ  >', '<!X ">']:
        for p in M.FAMILY:
            yield {'pieces': [['text', 'x '], ['html', d], ['text', ' y']], 'parser': p}
    for a, b in itertools.product(LOOK, LOOK[:12] + ['']):
        for p in ('github', 'cmark'):
            yield {'pieces': [['text', 'a '], ['like', a], ['text', ' b']] + ([['like', b], ['text', 'c']] if b else []), 'parser': p}
    for a in LOOK_GFM:
        for p in M.FAMILY:
            yield {'pieces': [['text', 'a '], ['like', a], ['text', ' b']], 'parser': p}
    for body in ['', 'a', ' ', ']', ']]', '>', ']>', ' a ]> b', '<b>', '[', '-->', '*', '_a_', '!', '[CDATA[']:
        for p in M.FAMILY:
            yield {'pieces': [['text', 'x '], ['html', '<![CDATA[' + body + ']]>'], ['text', ' y']], 'parser': p}
    for n in DIS:
        for f in (str, str.upper, str.capitalize):
            for s in ('<%s>', '</%s>', '<%s a=b>', '<%s/>', '</%s >', "<%s c='d' />"):
                for p in M.FAMILY:
                    yield {'pieces': [['text', 'a '], ['gfm', s % f(n)], ['text', ' b'], ['html', '<i>'], ['text', 'c'], ['html', '</i>']],
                           'parser': p}


def run_lines(case):
    """Constructs that go over several lines, for the function that removes HTML."""
    parser = case['parser']
    src = want = ''
    for kind, s in case['pieces']:
        if kind == 'text' and '<' in s or kind not in ('text', 'html'):
            raise Reject()
        src += s
        want += s if kind == 'text' else ''
        flat = re.sub('[\r\n]+', ' ', s)
        if kind == 'html' and (M.HTML.fullmatch(flat) is None or M.strip_html(flat, 'cmark') != ''):
            raise Reject()
    same(T.api.remove_html_tags(src, parser), want, '%s: remove_html_tags(%r)' % (parser, src))
    return '\n' in src or '\r' in src


def gen_lines(rng):
    ps = []
    for _ in range(rng.randint(1, 4)):
        ps.append(['text', rng.choice(['', 'a', ' b\n', '\n', 'c > d', '\r\n'])])
        x, y = ['a b'.replace(' ', rng.choice(['\n', ' \n ', '\r\n', '\n\n', ' '])) for _ in 'xy']
        e = rng.choice(['\n', ' ', '\r', ''])
        ps.append(['html', rng.choice(['<!--%s-->' % x, '<!-- %s %s-->' % (x, y), '<?%s %s?>' % (x, y), '<![CDATA[%s%s]]>' % (x, y), '<!X %s %s>' % (x, y), '<q r="%s">' % x,
                                       "<q r='%s' s=\"%s\">" % (x, y), '<q%sr>' % (e or ' '), '<q r%s>' % e, '</q%s>' % e, '<q%sr%s=%s"%s"%s/>' % (e or ' ', e, e, y, e)])])
    return {'pieces': ps + [['text', 'z']], 'parser': G.parser_of(rng, True)}


def run_renderer(case):
    """What an independent implementation takes for inline HTML."""
    t = ''.join(case['parts'])
    if '\n' in t or '\r' in t:
        raise Reject()
    toks = MD.parseInline(t)[0].children or []
    if any(c.type not in ('text', 'html_inline') for c in toks):
        raise Reject()
    want = ''.join(c.content for c in toks if c.type == 'text')
    # The model must agree, otherwise versions of the specification differ here.
    if M.strip_html(t, 'cmark') != want:
        raise Reject()
    same(T.api.remove_html_tags(t, 'cmark'), want, 'cmark: text left of %r' % t)
    return want != t


from markdown_it import MarkdownIt  # noqa: E402

MD = MarkdownIt('commonmark', {'html': True}).disable(['link', 'image', 'entity', 'escape', 'emphasis', 'backticks', 'autolink'])


def gen_renderer(rng):
    pool = ['<', '>', '/', ' ', 'a', 'b', '=', '"', "'", '<b', '</b', '<!--', '-->', '<?', '?>', '<!X ', '-', '!', '<b ', ' c="', "='", '\t', 'x', '/>', '<![CDATA[', ']]>']
    if rng.random() < 0.5:
        pool = [rng.choice(pool) for _ in range(5)] + ['>', '<b']
    parts = [rng.choice(pool) for _ in range(G.size(rng, 1, 60, 8))]
    t = ''.join(parts)
    # Strip blanks at the ends: the renderer does.
    return {'parts': ['x', t, 'y']}


WIDE = ['<b c="%s">', "<b c='%s'>", '<b c=%s>', '<b %s>', '<b%s>', '</b%s>', '<!--%s-->', '<?%s?>', '<!X %s>', '<![CDATA[%s]]>', '<b c="%s', '<!-- %s', '<%s>', 'a %s b<b>', '<b>%s</b>', '< %s>',
        '<title%s>', '<style %s>', '<b c%s="d">', '<b c=d%s/>', '<b c =%s"d">', '<b %s="e"/>']


def run_wide(case):
    """One long piece in each construct."""
    shape, unit, n, parser = case['shape'], case['unit'], case['n'], case['parser']
    if shape.count('%') != 1 or '%s' not in shape or n < 0 or n * len(unit) > 300000:
        raise Reject()
    t = 'x ' + shape % (unit * n) + ' y'
    if '\n' in t or '\r' in t or re.search(r'\?\?>|\]\]\]>', t):
        raise Reject()
    same(T.api.remove_html_tags(t, parser), M.strip_html(t, parser), '%s: remove_html_tags(%r with %d times %r)' % (parser, shape, n, unit))
    return n > 0


def enum_wide(tier):
    k = 0
    for n in G.widths(11000 if tier == 'quick' else 70000):
        for shape in WIDE:
            for unit in ['x', ' ', 'é', '-', ' e', ' e="f"', '.', '/', '<b>', '"', "'", '=']:
                k += 1
                yield {'shape': shape, 'unit': unit, 'n': n, 'parser': M.FAMILY[k % 5]}


CHECK = Check('C07', 'texts made of words, well-formed inline HTML of every kind, look-alikes and tags that GFM disallows; '
              'non-trivial: there is some HTML', [
                  Part('tags', run_pieces, enum=enum_tags, rule='attribute, blank, comment, instruction and look-alike shapes, completely'),
                  Part('names', run_pieces, enum=enum_names, rule='the disallowed tags and names that resemble them, for every parser'),
                  Part('chars', run_char, enum=enum_char, rule='every construct with each character put in, replaced or taken away at each place'),
                  Part('wide', run_wide, enum=enum_wide, rule='one piece repeated up to 10000 (66000) times in each of 22 constructs'),
                  Part('random', run_pieces, gen_pieces, quick=200000),
                  Part('many', run_pieces, gen_many, quick=3000, thorough=40000, rule='hundreds of constructs in one text'),
                  Part('lines', run_lines, gen_lines, quick=20000, rule='constructs with line endings inside'),
                  Part('doc', run_doc, gen_doc, quick=50000, rule='the anchor that ends up in the TOC'),
                  Part('renderer', run_renderer, gen_renderer, quick=150000, rule='differential against markdown-it-py on tag soup'),
              ], ['the model of raw HTML, cross-checked with markdown-it-py in part renderer'])
