"""Reading a TOC with an independent CommonMark implementation (markdown-it-py)."""
from markdown_it import MarkdownIt

MD = MarkdownIt('commonmark', {'maxNesting': 10**6})
MD.normalizeLink = lambda url: url
MD.validateLink = lambda url: True
MD.normalizeLinkText = lambda text: text


class Item:
    __slots__ = ('depth', 'ordered', 'number', 'marker', 'inline', 'list_id', 'parent')


def items(toc):
    """List items of the rendered TOC in order, or None if there is anything but lists."""
    out = []
    lists = []   # stack of [ordered, list id]
    stack = []   # stack of items
    n = 0
    tops = 0
    for t in MD.parse(toc):
        if t.type in ('bullet_list_open', 'ordered_list_open'):
            if not lists:
                tops += 1
            n += 1
            lists.append([t.type == 'ordered_list_open', n, t.markup, t.attrGet('start')])
        elif t.type in ('bullet_list_close', 'ordered_list_close'):
            lists.pop()
        elif t.type == 'list_item_open':
            it = Item()
            it.depth = len(lists) - 1
            it.ordered, it.list_id, it.marker, _ = lists[-1]
            it.number = t.info
            it.inline = None
            it.parent = stack[-1] if stack else None
            stack.append(it)
            out.append(it)
        elif t.type == 'list_item_close':
            stack.pop()
        elif t.type == 'inline':
            if not stack or stack[-1].inline is not None:
                return None, tops
            stack[-1].inline = t.children or []
        elif t.type in ('paragraph_open', 'paragraph_close'):
            pass
        else:
            return None, tops
    return out, tops


def shown(children):
    """The characters a reader sees."""
    out = []
    for c in children:
        if c.type in ('text', 'code_inline', 'text_special', 'html_inline'):
            out.append(c.content)
        elif c.type in ('softbreak', 'hardbreak'):
            out.append('\n')
        elif c.type == 'image':
            out.append('\x01image')
    return ''.join(out)


def inline(text):
    return MD.parseInline(text)[0].children or []
