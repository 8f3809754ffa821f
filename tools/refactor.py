#!/usr/bin/env python3
"""Edits of /repo that keep its behaviour: no check may raise an alarm.

    python3 tools/refactor.py C12 C13 -- id id ...
"""
import os
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
B = 'commonmark/blocks.py'
IN = 'commonmark/inlines.py'
CO = 'commonmark/common.py'
N = 'commonmark/node.py'
H = 'commonmark/render/html.py'
RS = 'commonmark/render/rst.py'
RR = 'commonmark/render/renderer.py'
M = 'commonmark/main.py'
D = 'commonmark/dump.py'

EDITS = {}


def edit(id, *subs):
    EDITS[id] = subs


edit('nul-replace', (B, """        if re.search(r'\\u0000', ln) is not None:
            ln = re.sub(r'\\0', '\\uFFFD', ln)
""", """        if '\\0' in ln:
            ln = ln.replace('\\0', '\\uFFFD')
"""))
edit('nul-helper', (B, """        if re.search(r'\\u0000', ln) is not None:
            ln = re.sub(r'\\0', '\\uFFFD', ln)
""", """        ln = strip_nul(ln)
"""), (B, """def is_blank(s):
""", """def strip_nul(s):
    return s.replace('\\x00', '\\ufffd')


def is_blank(s):
"""))
edit('nul-join', (B, """            ln = re.sub(r'\\0', '\\uFFFD', ln)
""", """            ln = '\\uFFFD'.join(ln.split('\\0'))
"""))
edit('nul-loop', (B, """            ln = re.sub(r'\\0', '\\uFFFD', ln)
""", """            ln = ''.join('\\uFFFD' if c == '\\0' else c for c in ln)
"""))
edit('nul-parse', (B, """        lines = re.split(reLineEnding, my_input)
""", """        my_input = my_input.replace('\\0', '\\ufffd')
        lines = re.split(reLineEnding, my_input)
"""))
edit('uri-const', (CO, """def normalize_uri(uri):
    try:
        return quote(uri.encode('utf-8'), safe=str(';/@:+?=&()%#*,'))
    except UnicodeEncodeError:
        # lone surrogates; Python 2 encodes these without complaint
        return quote(uri.encode('utf-8', 'surrogatepass'),
                     safe=str(';/@:+?=&()%#*,'))
""", """URI_SAFE = str(';/@:+?=&()%#*,')


def _to_bytes(uri):
    try:
        return uri.encode('utf-8')
    except UnicodeEncodeError:
        return uri.encode('utf-8', 'surrogatepass')


def normalize_uri(uri):
    try:
        return quote(_to_bytes(uri), safe=URI_SAFE)
"""))
edit('dest-helper', (IN, """            res = self.subject[savepos:self.pos]
            return normalize_uri(unescape_string(res))
        else:
            # chop off surrounding <..>:
            return normalize_uri(unescape_string(res[1:-1]))
""", """            res = self.subject[savepos:self.pos]
        else:
            # chop off surrounding <..>:
            res = res[1:-1]
        unescaped = unescape_string(res)
        return normalize_uri(unescaped)
"""))
edit('autolink-merge', (IN, """        m = self.match(reEmailAutolink)

        if m:
            # email
            dest = m[1:-1]
            node = Node('link', None)
            node.destination = normalize_uri('mailto:' + dest)
            node.title = ''
            node.append_child(text(dest))
            block.append_child(node)
            return True
        else:
            m = self.match(reAutolink)
            if m:
                # link
                dest = m[1:-1]
                node = Node('link', None)
                node.destination = normalize_uri(dest)
                node.title = ''
                node.append_child(text(dest))
                block.append_child(node)
                return True

        return False
""", """        for pattern, scheme in ((reEmailAutolink, 'mailto:'),
                                (reAutolink, '')):
            m = self.match(pattern)
            if not m:
                continue
            dest = m[1:-1]
            node = Node('link', None)
            node.destination = normalize_uri(scheme + dest)
            node.title = ''
            node.append_child(text(dest))
            block.append_child(node)
            return True
        return False
"""))
edit('match-compiled', (IN, """        match = re.search(regexString, self.subject[self.pos:])
        if match is None:
            return None
        else:
            self.pos += match.end()
            return match.group()
""", """        rest = self.subject[self.pos:]
        found = regexString.search(rest)
        if not found:
            return None
        self.pos = self.pos + found.end()
        return found.group(0)
"""))
edit('peek-ternary', (IN, """        if self.pos < len(self.subject):
            return self.subject[self.pos]
        else:
            return None
""", """        subject = self.subject
        return subject[self.pos] if self.pos < len(subject) else None
"""))
edit('peek-slice', (IN, """        if self.pos < len(self.subject):
            return self.subject[self.pos]
        else:
            return None
""", """        return self.subject[self.pos:self.pos + 1] or None
"""))
edit('blocks-peek', (B, """    if pos < len(ln):
        return ln[pos]
    else:
        return None
""", """    if pos >= len(ln):
        return None
    return ln[pos]
"""))
edit('reset-helper', (B, """        self.doc = Node('document', [[1, 1], [0, 0]])
        self.tip = self.doc
        self.refmap = {}
        self.line_number = 0
        self.last_line_length = 0
        self.offset = 0
        self.column = 0
        self.last_matched_container = self.doc
        self.current_line = ''
        lines = re.split""", """        self._reset()
        lines = re.split"""), (B, """    def parse(self, my_input):
""", """    def _reset(self):
        self.last_line_length = 0
        self.line_number = 0
        self.current_line = ''
        self.refmap = {}
        self.offset = self.column = 0
        self.doc = self.tip = Node('document', [[1, 1], [0, 0]])
        self.last_matched_container = self.doc

    def parse(self, my_input):
"""))
edit('parse-for', (B, """        length = len(lines)
        if len(my_input) > 0 and my_input[-1] in ('\\n', '\\r'):
            # ignore last blank line created by final newline
            length -= 1
        for i in range(length):
            self.incorporate_line(lines[i])
""", """        if my_input.endswith(('\\n', '\\r')):
            # ignore last blank line created by final newline
            lines = lines[:-1]
        length = len(lines)
        for line in lines:
            self.incorporate_line(line)
"""))
edit('split-method', (B, """        lines = re.split(reLineEnding, my_input)
""", """        lines = reLineEnding.split(my_input)
"""))
edit('inlines-walk', (B, """        walker = block.walker()
        self.inline_parser.refmap = self.refmap
        self.inline_parser.options = self.options
        event = walker.nxt()
        while event is not None:
            node = event['node']
            t = node.t
            if not event['entering'] and (t == 'paragraph' or t == 'heading'):
                self.inline_parser.parse(node)
            event = walker.nxt()
""", """        inline = self.inline_parser
        inline.options = self.options
        inline.refmap = self.refmap
        for node, entering in block.walker():
            if not entering and node.t in ('paragraph', 'heading'):
                inline.parse(node)
"""))
edit('starts-for', (B, """            i = 0
            while i < starts_len:
                res = getattr(starts, starts.METHODS[i])(self, container)
                if res == 1:
                    container = self.tip
                    break
                elif res == 2:
                    container = self.tip
                    matched_leaf = True
                    break
                else:
                    i += 1

            if i == starts_len:
                # nothing matched
                self.advance_next_nonspace()
                break
""", """            for name in starts.METHODS:
                res = getattr(starts, name)(self, container)
                if res in (1, 2):
                    container = self.tip
                    matched_leaf = matched_leaf or res == 2
                    break
            else:
                # nothing matched
                self.advance_next_nonspace()
                break
"""))
edit('walker-flow', (N, """        cur = self.current
        entering = self.entering

        if cur is None:
            raise StopIteration

        container = is_container(cur)

        if entering and container:
            if cur.first_child:
                self.current = cur.first_child
                self.entering = True
            else:
                # stay on node but exit
                self.entering = False
        elif cur == self.root:
            self.current = None
        elif cur.nxt is None:
            self.current = cur.parent
            self.entering = False
        else:
            self.current = cur.nxt
            self.entering = True

        return cur, entering
""", """        node, entering = self.current, self.entering
        if node is None:
            raise StopIteration

        if entering and is_container(node):
            child = node.first_child
            if child:
                self.current, self.entering = child, True
            else:
                self.entering = False
        elif node is self.root:
            self.current = None
        elif node.nxt is not None:
            self.current, self.entering = node.nxt, True
        else:
            self.current, self.entering = node.parent, False

        return node, entering
"""))
edit('container-set', (N, """def is_container(node):
    return (re.search(reContainer, node.t) is not None)
""", """CONTAINERS = frozenset([
    'document', 'block_quote', 'list', 'item', 'paragraph', 'heading',
    'emph', 'strong', 'link', 'image', 'custom_inline', 'custom_block'])


def is_container(node):
    return node.t in CONTAINERS
"""))
edit('unlink-flow', (N, """        if self.prv:
            self.prv.nxt = self.nxt
        elif self.parent:
            self.parent.first_child = self.nxt

        if self.nxt:
            self.nxt.prv = self.prv
        elif self.parent:
            self.parent.last_child = self.prv

        self.parent = None
        self.nxt = None
        self.prv = None
""", """        before, after, parent = self.prv, self.nxt, self.parent
        if before is not None:
            before.nxt = after
        elif parent is not None:
            parent.first_child = after
        if after is not None:
            after.prv = before
        elif parent is not None:
            parent.last_child = before
        self.parent = self.nxt = self.prv = None
"""))
edit('append-flow', (N, """        child.unlink()
        child.parent = self
        if self.last_child:
            self.last_child.nxt = child
            child.prv = self.last_child
            self.last_child = child
        else:
            self.first_child = child
            self.last_child = child

    def prepend_child""", """        child.unlink()
        last = self.last_child
        if last is None:
            self.first_child = child
        else:
            child.prv = last
            last.nxt = child
        self.last_child = child
        child.parent = self

    def prepend_child"""))
edit('insert-flow', (N, """        sibling.unlink()
        sibling.nxt = self.nxt
        if sibling.nxt:
            sibling.nxt.prv = sibling
        sibling.prv = self
        self.nxt = sibling
        sibling.parent = self.parent
        if not sibling.nxt:
            sibling.parent.last_child = sibling
""", """        sibling.unlink()
        follower = self.nxt
        sibling.parent = self.parent
        sibling.prv = self
        sibling.nxt = follower
        self.nxt = sibling
        if follower:
            follower.prv = sibling
        else:
            self.parent.last_child = sibling
"""))
edit('dashes-div', (IN, """    en_count = 0
    em_count = 0
    if len(chars) % 3 == 0:
        # If divisible by 3, use all em dashes
        em_count = len(chars) // 3
    elif len(chars) % 2 == 0:
        # If divisble by 2, use all en dashes
        en_count = len(chars) // 2
    elif len(chars) % 3 == 2:
        # if 2 extra dashes, use en dashfor last 2;
        # em dashes for rest
        en_count = 1
        em_count = (len(chars) - 2) // 3
    else:
        # Use en dashes for last 4 hyphens; em dashes for rest
        en_count = 2
        em_count = (len(chars) - 4) // 3
    return""", """    n = len(chars)
    if n % 3 == 0:
        en_count, em_count = 0, n // 3
    elif n % 2 == 0:
        en_count, em_count = n // 2, 0
    else:
        en_count = 1 if n % 3 == 2 else 2
        em_count = (n - 2 * en_count) // 3
    return"""))
edit('backslash-flow', (IN, """        try:
            subjchar = subj[self.pos]
        except IndexError:
            subjchar = None

        if self.peek() == '\\n':
            self.pos += 1
            node = Node('linebreak', None)
            block.append_child(node)
        elif subjchar and re.search(reEscapable, subjchar):
            block.append_child(text(subjchar))
            self.pos += 1
        else:
            block.append_child(text('\\\\'))

        return True
""", """        following = self.peek()
        if following == '\\n':
            node = Node('linebreak', None)
            self.pos += 1
        elif following is not None and reEscapable.match(following):
            node = text(following)
            self.pos += 1
        else:
            node = text('\\\\')
        block.append_child(node)
        return True
"""))
edit('backticks-flow', (IN, """        after_open_ticks = self.pos
        matched = self.match(reTicks)
        while matched is not None:
            if matched == ticks:
                node = Node('code', None)
                contents = self.subject[after_open_ticks:self.pos-len(ticks)] \\
                    .replace('\\n', ' ')
                if contents.lstrip(' ') and contents[0] == contents[-1] == ' ':
                    node.literal = contents[1:-1]
                else:
                    node.literal = contents
                block.append_child(node)
                return True
            matched = self.match(reTicks)
""", """        after_open_ticks = self.pos
        while True:
            matched = self.match(reTicks)
            if matched is None:
                break
            if matched != ticks:
                continue
            end = self.pos - len(ticks)
            contents = self.subject[after_open_ticks:end]
            contents = contents.replace('\\n', ' ')
            if contents.strip(' ') and contents.startswith(' ') and \\
                    contents.endswith(' '):
                contents = contents[1:-1]
            node = Node('code', None)
            node.literal = contents
            block.append_child(node)
            return True
"""))
edit('reference-flow', (IN, """        if not refmap.get(normlabel):
            refmap[normlabel] = {
                'destination': dest,
                'title': title
            }
        return (self.pos - startpos)
""", """        if normlabel not in refmap:
            entry = {'title': title, 'destination': dest}
            refmap[normlabel] = entry
        return self.pos - startpos
"""))
edit('reference-setdefault', (IN, """        if not refmap.get(normlabel):
            refmap[normlabel] = {
                'destination': dest,
                'title': title
            }
""", """        refmap.setdefault(normlabel, {'destination': dest, 'title': title})
"""))
edit('dispatch-table', (IN, """        if c == '\\n':
            res = self.parseNewline(block)
        elif c == '\\\\':
            res = self.parseBackslash(block)
        elif c == '`':
            res = self.parseBackticks(block)
        elif c == '*' or c == '_':
            res = self.handleDelim(c, block)
""", """        simple = {
            '\\n': self.parseNewline,
            '\\\\': self.parseBackslash,
            '`': self.parseBackticks,
        }
        if c in simple:
            res = simple[c](block)
        elif c in ('*', '_'):
            res = self.handleDelim(c, block)
"""))
edit('finalize-order', (B, """        above = block.parent
        block.is_open = False
        block.sourcepos[1] = [line_number, self.last_line_length]

        self.blocks[block.t].finalize(self, block)

        self.tip = above
""", """        parent = block.parent
        block.sourcepos[1] = [line_number, self.last_line_length]
        block.is_open = False
        handler = self.blocks[block.t]
        handler.finalize(self, block)
        self.tip = parent
"""))
edit('codeblock-partition', (B, """            content = block.string_content
            newline_pos = content.index('\\n')
            first_line = content[0:newline_pos]
            rest = content[newline_pos + 1:]
            block.info = unescape_string(first_line.strip())
            block.literal = rest
""", """            first_line, _, rest = block.string_content.partition('\\n')
            block.literal = rest
            block.info = unescape_string(first_line.strip())
"""))
edit('paragraph-helper', (B, """        has_reference_defs = False

        # try parsing the beginning as link reference definitions:
        while peek(block.string_content, 0) == '[':
            pos = parser.inline_parser.parseReference(
                block.string_content, parser.refmap)
            if not pos:
                break
            block.string_content = block.string_content[pos:]
            has_reference_defs = True
        if has_reference_defs and is_blank(block.string_content):
            block.unlink()
""", """        content = block.string_content
        while content[:1] == '[':
            used = parser.inline_parser.parseReference(
                content, parser.refmap)
            if used == 0:
                break
            content = content[used:]
        changed = content != block.string_content
        block.string_content = content
        if changed and is_blank(content):
            block.unlink()
"""))
edit('render-for', (RR, """        event = walker.nxt()
        while event is not None:
            type_ = event['node'].t
            if hasattr(self, type_):
                getattr(self, type_)(event['node'], event['entering'])
            event = walker.nxt()
""", """        for node, entering in walker:
            handler = getattr(self, node.t, None)
            if handler is not None:
                handler(node, entering)
"""))
edit('main-table', (M, """    parser = Parser()
    ast = parser.parse(text)
    if format not in ["html", "json", "ast", "rst"]:
        raise ValueError("format must be 'html', 'json' or 'ast'")
    if format == "html":
        renderer = HtmlRenderer()
        return renderer.render(ast)
    if format == "json":
        return dumpJSON(ast)
    if format == "ast":
        return dumpAST(ast)
    if format == "rst":
        renderer = ReStructuredTextRenderer()
        return renderer.render(ast)
""", """    writers = {
        'html': lambda doc: HtmlRenderer().render(doc),
        'rst': lambda doc: ReStructuredTextRenderer().render(doc),
        'json': dumpJSON,
        'ast': dumpAST,
    }
    tree = Parser().parse(text)
    if format not in writers:
        raise ValueError("format must be 'html', 'json' or 'ast'")
    return writers[format](tree)
"""))
edit('rst-ternary', (RS, """        if s == '\\n':
            indent = ''  # Avoid whitespace if we're just adding a newline
        elif self.last_out != '\\n':
            indent = ''  # Don't indent if we're in the middle of a line
        else:
            indent = self.indent_char * self.indent_length

        return super(ReStructuredTextRenderer, self).lit(indent + s)
""", """        if s != '\\n' and self.last_out == '\\n':
            s = self.indent_char * self.indent_length + s
        super(ReStructuredTextRenderer, self).lit(s)
"""))
edit('rst-indent', (RS, """        if entering:
            self.indent_length += 4
        else:
            self.indent_length -= 4

    def heading""", """        step = 4
        self.indent_length += step if entering else -step

    def heading"""))
edit('html-image', (H, """            if self.disable_tags == 0:
                if self.options.get('safe') and \\
                   potentially_unsafe(node.destination):
                    self.lit('<img src="" alt="')
                else:
                    self.lit('<img src="' +
                             self.escape(node.destination) +
                             '" alt="')
""", """            if not self.disable_tags:
                blocked = self.options.get('safe') and \\
                    potentially_unsafe(node.destination)
                src = '' if blocked else self.escape(node.destination)
                self.lit('<img src="' + src + '" alt="')
"""))
edit('emphasis-helper', (IN, """                        tmp = opener_inl.nxt
                        while tmp and tmp != closer_inl:
                            nxt = tmp.nxt
                            tmp.unlink()
                            emph.append_child(tmp)
                            tmp = nxt

                        opener_inl.insert_after(emph)
""", """                        self._move(opener_inl.nxt, closer_inl, emph)
                        opener_inl.insert_after(emph)
"""), (IN, """    def processEmphasis(self, stack_bottom):
""", """    @staticmethod
    def _move(first, stop, target):
        while first and first != stop:
            following = first.nxt
            target.append_child(first)
            first = following

    def processEmphasis(self, stack_bottom):
"""))
edit('marker-flow', (B, """    if parser.indent >= 4:
        return None
    m = re.search(reBulletListMarker, rest)
    m2 = re.search(reOrderedListMarker, rest)
    if m:
        data['type'] = 'bullet'
        data['bullet_char'] = m.group()[0]
    elif m2 and (container.t != 'paragraph' or m2.group(1) == '1'):
        m = m2
        data['type'] = 'ordered'
        data['start'] = int(m.group(1))
        data['delimiter'] = m.group(2)
    else:
        return None
""", """    if parser.indent >= CODE_INDENT:
        return None
    m = reBulletListMarker.match(rest)
    if m is not None:
        data.update(type='bullet', bullet_char=m.group(0))
    else:
        m = reOrderedListMarker.match(rest)
        if m is None:
            return None
        number, delimiter = m.groups()
        if container.t == 'paragraph' and number != '1':
            return None
        data['type'] = 'ordered'
        data['start'] = int(number)
        data['delimiter'] = delimiter
"""))
edit('nonspace-loop', (B, """        current_line = self.current_line
        i = self.offset
        cols = self.column

        try:
            c = current_line[i]
        except IndexError:
            c = ''
        while c != '':
            if c == ' ':
                i += 1
                cols += 1
            elif c == '\\t':
                i += 1
                cols += (4 - (cols % 4))
            else:
                break

            try:
                c = current_line[i]
            except IndexError:
                c = ''
""", """        line = self.current_line
        i, cols = self.offset, self.column
        while i < len(line) and line[i] in ' \\t':
            cols += 1 if line[i] == ' ' else 4 - cols % 4
            i += 1
        c = line[i:i + 1]
"""))
edit('delims-helper', (IN, """        # Add entry to stack for this opener
        self.delimiters = {
            'cc': cc,
            'numdelims': numdelims,
            'origdelims': numdelims,
            'node': node,
            'previous': self.delimiters,
            'next': None,
            'can_open': res.get('can_open'),
            'can_close': res.get('can_close'),
        }
        if self.delimiters['previous'] is not None:
            self.delimiters['previous']['next'] = self.delimiters
        return True
""", """        self._push_delimiter(cc, node, res)
        return True

    def _push_delimiter(self, cc, node, scanned):
        below = self.delimiters
        entry = dict(
            cc=cc,
            numdelims=scanned['numdelims'],
            origdelims=scanned['numdelims'],
            node=node,
            previous=below,
            next=None,
            can_open=scanned['can_open'],
            can_close=scanned['can_close'],
        )
        if below is not None:
            below['next'] = entry
        self.delimiters = entry
"""))
edit('delims-filled', (IN, """        self.delimiters = {
            'cc': cc,
            'numdelims': numdelims,
            'origdelims': numdelims,
            'node': node,
            'previous': self.delimiters,
            'next': None,
            'can_open': res.get('can_open'),
            'can_close': res.get('can_close'),
        }
        if self.delimiters['previous'] is not None:
            self.delimiters['previous']['next'] = self.delimiters
        return True
""", """        entry = {'cc': cc, 'node': node, 'next': None}
        entry['numdelims'] = entry['origdelims'] = numdelims
        entry['can_open'] = res['can_open']
        entry['can_close'] = res['can_close']
        entry['previous'] = self.delimiters
        if self.delimiters is not None:
            self.delimiters['next'] = entry
        self.delimiters = entry
        return True
"""))
edit('adopt-helper', (IN, """            tmp = opener.get('node').nxt
            while tmp:
                nxt = tmp.nxt
                tmp.unlink()
                node.append_child(tmp)
                tmp = nxt
            block.append_child(node)
""", """            adopt(node, opener['node'].nxt, None)
            block.append_child(node)
"""), (IN, """                        tmp = opener_inl.nxt
                        while tmp and tmp != closer_inl:
                            nxt = tmp.nxt
                            tmp.unlink()
                            emph.append_child(tmp)
                            tmp = nxt

""", """                        adopt(emph, opener_inl.nxt, closer_inl)

"""), (IN, """def smart_dashes(chars):
""", """def adopt(parent, first, stop):
    while first and first is not stop:
        following = first.nxt
        parent.append_child(first)
        first = following


def smart_dashes(chars):
"""))
edit('inline-link-helper', (IN, """        # Inline link?
        if self.peek() == '(':
            self.pos += 1
            self.spnl()
            dest = self.parseLinkDestination()
            if dest is not None and self.spnl():
                # make sure there's a space before the title
                if re.search(reWhitespaceChar, self.subject[self.pos-1]):
                    title = self.parseLinkTitle()
                if self.spnl() and self.peek() == ')':
                    self.pos += 1
                    matched = True
            if not matched:
                self.pos = savepos
""", """        found = self._inline_target()
        if found is not None:
            dest, title = found
            matched = True
"""), (IN, """    def addBracket(self, node, index, image):
""", """    def _inline_target(self):
        start = self.pos
        if self.peek() != '(':
            return None
        self.pos += 1
        self.spnl()
        dest = self.parseLinkDestination()
        if dest is not None:
            self.spnl()
            title = None
            if re.search(reWhitespaceChar, self.subject[self.pos - 1]):
                title = self.parseLinkTitle()
            self.spnl()
            if self.peek() == ')':
                self.pos += 1
                return dest, title
        self.pos = start
        return None

    def addBracket(self, node, index, image):
"""))
edit('quotes-merge', (IN, """                elif closercc == "'":
                    closer['node'].literal = '\\u2019'
                    if opener_found:
                        opener['node'].literal = '\\u2018'
                    closer = closer['next']

                elif closercc == '"':
                    closer['node'].literal = '\\u201D'
                    if opener_found:
                        opener['node'].literal = '\\u201C'
                    closer = closer['next']
""", """                else:
                    left, right = SMART_QUOTES[closercc]
                    closer['node'].literal = right
                    if opener_found:
                        opener['node'].literal = left
                    closer = closer['next']
"""), (IN, """def smart_dashes(chars):
""", """SMART_QUOTES = {
    "'": ('\\u2018', '\\u2019'),
    '"': ('\\u201C', '\\u201D'),
}


def smart_dashes(chars):
"""))
edit('scan-local', (IN, """        numdelims = 0
        startpos = self.pos

        if c == "'" or c == '"':
            numdelims += 1
            self.pos += 1
        else:
            while (self.peek() == c):
                numdelims += 1
                self.pos += 1

        if numdelims == 0:
            return None
""", """        startpos = self.pos
        end = startpos
        if c in ("'", '"'):
            end += 1
        else:
            while end < len(self.subject) and self.subject[end] == c:
                end += 1
        numdelims = end - startpos
        if not numdelims:
            return None
        self.pos = end
"""))
edit('scan-spaces', (IN, """        # Python 2 doesn't recognize '\\xa0' as whitespace
        after_is_whitespace = re.search(reUnicodeWhitespaceChar, c_after) or \\
            c_after == '\\xa0'
        after_is_punctuation = re.search(rePunctuation, c_after)
        before_is_whitespace = re.search(
            reUnicodeWhitespaceChar, c_before) or \\
            c_before == '\\xa0'
        before_is_punctuation = re.search(rePunctuation, c_before)
""", """        after_is_whitespace = is_space(c_after)
        before_is_whitespace = is_space(c_before)
        after_is_punctuation = bool(re.search(rePunctuation, c_after))
        before_is_punctuation = bool(re.search(rePunctuation, c_before))
"""), (IN, """def smart_dashes(chars):
""", """def is_space(c):
    # Python 2 doesn't recognize '\\xa0' as whitespace
    return c == '\\xa0' or bool(re.search(reUnicodeWhitespaceChar, c))


def smart_dashes(chars):
"""))
edit('deactivate-helper', (IN, """            if not is_image:
                opener = self.brackets
                while opener is not None:
                    if not opener.get('image'):
                        # deactivate this opener
                        opener['active'] = False
                    opener = opener.get('previous')
""", """            if not is_image:
                self._deactivate_links()
"""), (IN, """    def addBracket(self, node, index, image):
""", """    def _deactivate_links(self):
        b = self.brackets
        while b is not None:
            if not b['image']:
                b['active'] = False
            b = b['previous']

    def addBracket(self, node, index, image):
"""))
edit('newline-flow', (IN, """        if lastc and lastc.t == 'text' and lastc.literal[-1:] == ' ':
            linebreak = len(lastc.literal) >= 2 and lastc.literal[-2] == ' '
            lastc.literal = re.sub(reFinalSpace, '', lastc.literal)
            if linebreak:
                node = Node('linebreak', None)
            else:
                node = Node('softbreak', None)
            block.append_child(node)
        else:
            block.append_child(Node('softbreak', None))
""", """        kind = 'softbreak'
        if lastc is not None and lastc.t == 'text' and \\
                lastc.literal.endswith(' '):
            if lastc.literal.endswith('  '):
                kind = 'linebreak'
            lastc.literal = re.sub(reFinalSpace, '', lastc.literal)
        block.append_child(Node(kind, None))
"""))
edit('string-flow', (IN, """        m = self.match(reMain)
        if m:
            if self.options.get('smart'):
                s = re.sub(reEllipses, '\\u2026', m)
                s = re.sub(reDash, lambda x: smart_dashes(x.group()), s)
                block.append_child(text(s))
            else:
                block.append_child(text(m))
            return True
        else:
            return False
""", """        s = self.match(reMain)
        if not s:
            return False
        if self.options.get('smart'):
            s = self._smarten(s)
        block.append_child(text(s))
        return True

    def _smarten(self, s):
        s = reEllipses.sub('\\u2026', s)
        return reDash.sub(lambda found: smart_dashes(found.group(0)), s)
"""))
edit('reference-title', (IN, """        beforetitle = self.pos
        self.spnl()
        title = None
        if self.pos != beforetitle:
            title = self.parseLinkTitle()
        if title is None:
            title = ''
            # rewind before spaces
            self.pos = beforetitle
""", """        beforetitle = self.pos
        title = self._spaced_title()
        if title is None:
            self.pos = beforetitle
            title = ''
"""), (IN, """    def parseReference(self, s, refmap):
""", """    def _spaced_title(self):
        before = self.pos
        self.spnl()
        if self.pos == before:
            return None
        return self.parseLinkTitle()

    def parseReference(self, s, refmap):
"""))
edit('dest-flow', (IN, """                if c == '\\\\' and re.search(
                        reEscapable, self.subject[self.pos+1:self.pos+2]):
                    self.pos += 1
                    if self.peek() is not None:
                        self.pos += 1
                elif c == '(':
                    self.pos += 1
                    openparens += 1
                elif c == ')':
                    if openparens < 1:
                        break
                    else:
                        self.pos += 1
                        openparens -= 1
                elif re.search(reWhitespaceChar, c):
                    break
                else:
                    self.pos += 1
""", """                step = 1
                if c == '\\\\' and re.search(
                        reEscapable, self.subject[self.pos+1:self.pos+2]):
                    step = 2
                elif c == '(':
                    openparens += 1
                elif c == ')':
                    openparens -= 1
                    if openparens < 0:
                        break
                elif re.search(reWhitespaceChar, c):
                    break
                self.pos += step
"""))
edit('blank-helper', (B, """            # propagate last_line_blank up through parents:
            cont = container
            while cont:
                cont.last_line_blank = last_line_blank
                cont = cont.parent
""", """            self.mark_blank(container, last_line_blank)
"""), (B, """    def finalize(self, block, line_number):
""", """    @staticmethod
    def mark_blank(block, value):
        while block is not None:
            block.last_line_blank = value
            block = block.parent

    def finalize(self, block, line_number):
"""))
edit('starts-helper', (B, """            i = 0
            while i < starts_len:
                res = getattr(starts, starts.METHODS[i])(self, container)
                if res == 1:
                    container = self.tip
                    break
                elif res == 2:
                    container = self.tip
                    matched_leaf = True
                    break
                else:
                    i += 1

            if i == starts_len:
                # nothing matched
                self.advance_next_nonspace()
                break
""", """            res = self.try_starts(container)
            if res == 0:
                # nothing matched
                self.advance_next_nonspace()
                break
            container = self.tip
            matched_leaf = res == 2
"""), (B, """    def finalize(self, block, line_number):
""", """    def try_starts(self, container):
        for name in self.block_starts.METHODS:
            res = getattr(self.block_starts, name)(self, container)
            if res:
                return res
        return 0

    def finalize(self, block, line_number):
"""))
edit('html-close-helper', (B, """                if t == 'html_block' and \\
                   container.html_block_type >= 1 and \\
                   container.html_block_type <= 5 and \\
                   re.search(
                       reHtmlBlockClose[container.html_block_type],
                       self.current_line[self.offset:]):
                    self.last_line_length = len(ln)
                    self.finalize(container, self.line_number)
""", """                if t == 'html_block' and self.html_block_ends(container):
                    self.last_line_length = len(ln)
                    self.finalize(container, self.line_number)
"""), (B, """    def finalize(self, block, line_number):
""", """    def html_block_ends(self, block):
        kind = block.html_block_type
        if not 1 <= kind <= 5:
            return False
        rest = self.current_line[self.offset:]
        return re.search(reHtmlBlockClose[kind], rest) is not None

    def finalize(self, block, line_number):
"""))
edit('add-line-once', (B, """        if self.partially_consumed_tab:
            # Skip over tab
            self.offset += 1
            # Add space characters
            chars_to_tab = 4 - (self.column % 4)
            self.tip.string_content += (' ' * chars_to_tab)
        self.tip.string_content += (self.current_line[self.offset:] + '\\n')
""", """        prefix = ''
        if self.partially_consumed_tab:
            # Skip over tab
            self.offset += 1
            prefix = ' ' * (4 - self.column % 4)
        block = self.tip
        line = self.current_line[self.offset:]
        block.string_content = block.string_content + prefix + line + '\\n'
"""))
edit('offset-flow', (B, """            if c == '\\t':
                chars_to_tab = 4 - (self.column % 4)
                if columns:
                    self.partially_consumed_tab = chars_to_tab > count
                    chars_to_advance = min(count, chars_to_tab)
                    self.column += chars_to_advance
                    self.offset += 0 if self.partially_consumed_tab else 1
                    count -= chars_to_advance
                else:
                    self.partially_consumed_tab = False
                    self.column += chars_to_tab
                    self.offset += 1
                    count -= 1
            else:
                self.partially_consumed_tab = False
                self.offset += 1
                # assume ascii; block starts are ascii
                self.column += 1
                count -= 1
""", """            width = 4 - self.column % 4 if c == '\\t' else 1
            if c == '\\t' and columns:
                part = width > count
                self.partially_consumed_tab = part
                taken = count if part else width
                if not part:
                    self.offset += 1
                self.column += taken
                count -= taken
            else:
                self.partially_consumed_tab = False
                self.column += width
                self.offset += 1
                count -= 1
"""))
edit('list-any', (B, """            subitem = item.first_child
            while subitem:
                if ends_with_blank_line(subitem) and \\
                   (item.nxt or subitem.nxt):
                    block.list_data['tight'] = False
                    break
                subitem = subitem.nxt
            item = item.nxt
""", """            if loose_inside(item):
                block.list_data['tight'] = False
            item = item.nxt
"""), (B, """def is_blank(s):
""", """def loose_inside(item):
    sub = item.first_child
    while sub is not None:
        if (sub.nxt or item.nxt) and ends_with_blank_line(sub):
            return True
        sub = sub.nxt
    return False


def is_blank(s):
"""))
edit('fence-while', (B, """                i = container.fence_offset
                while i > 0 and is_space_or_tab(peek(ln, parser.offset)):
                    parser.advance_offset(1, True)
                    i -= 1
""", """                for _ in range(container.fence_offset):
                    if not is_space_or_tab(peek(ln, parser.offset)):
                        break
                    parser.advance_offset(1, True)
"""))
edit('fence-break', (B, """                while i > 0 and is_space_or_tab(peek(ln, parser.offset)):
                    parser.advance_offset(1, True)
                    i -= 1
""", """                while i > 0:
                    i -= 1
                    if not is_space_or_tab(peek(ln, parser.offset)):
                        break
                    parser.advance_offset(1, True)
"""))
edit('tag-join', (H, """        self.buf += '<' + name
        if attrs and len(attrs) > 0:
            for attrib in attrs:
                self.buf += ' ' + attrib[0] + '="' + attrib[1] + '"'

        if selfclosing:
            self.buf += ' /'

        self.buf += '>'
        self.last_out = '>'
""", """        parts = ['<', name]
        for key, value in attrs or []:
            parts.append(' %s="%s"' % (key, value))
        if selfclosing:
            parts.append(' /')
        parts.append('>')
        self.buf += ''.join(parts)
        self.last_out = '>'
"""))
edit('html-lines', (H, """    def heading(self, node, entering):
        tagname = 'h' + str(node.level)
        attrs = self.attrs(node)
        if entering:
            self.cr()
            self.tag(tagname, attrs)
        else:
            self.tag('/' + tagname)
            self.cr()
""", """    def heading(self, node, entering):
        self._line_block('h%d' % node.level, node, entering)

    def _line_block(self, tagname, node, entering):
        if not entering:
            self.tag('/' + tagname)
            self.cr()
            return
        self.cr()
        self.tag(tagname, self.attrs(node))
"""))
edit('html-omit', (H, """        self.cr()
        if self.options.get('safe'):
            self.lit('<!-- raw HTML omitted -->')
        else:
            self.lit(node.literal)
        self.cr()
""", """        self.cr()
        self.lit(self._raw(node))
        self.cr()

    def _raw(self, node):
        return '<!-- raw HTML omitted -->' if self.options.get('safe') \\
            else node.literal
"""))
edit('html-pos', (H, """            if pos:
                att.append(['data-sourcepos', str(pos[0][0]) + ':' +
                            str(pos[0][1]) + '-' + str(pos[1][0]) + ':' +
                            str(pos[1][1])])
""", """            if pos:
                (l1, c1), (l2, c2) = pos
                att.append(['data-sourcepos',
                            '%d:%d-%d:%d' % (l1, c1, l2, c2)])
"""))
edit('unescape-early', (CO, """    if re.search(reBackslashOrAmp, s):
        return re.sub(
            reEntityOrEscapedChar,
            lambda m: unescape_char(m.group()),
            s)
    else:
        return s
""", """    if '\\\\' not in s and '&' not in s:
        return s
    return reEntityOrEscapedChar.sub(
        lambda m: unescape_char(m.group(0)), s)
"""))
edit('rest-helper', (B, """            m = re.search(reATXHeadingMarker,
                          parser.current_line[parser.next_nonspace:])
""", """            m = re.search(reATXHeadingMarker, rest_of_line(parser))
"""), (B, """            m = re.search(
                reCodeFence,
                parser.current_line[parser.next_nonspace:])
""", """            m = re.search(reCodeFence, rest_of_line(parser))
"""), (B, """            m = re.search(
                reSetextHeadingLine,
                parser.current_line[parser.next_nonspace:])
""", """            m = re.search(reSetextHeadingLine, rest_of_line(parser))
"""), (B, """def is_blank(s):
""", """def rest_of_line(parser):
    line = parser.current_line
    return line[parser.next_nonspace:]


def is_blank(s):
"""))
edit('atx-flow', (B, """                # remove trailing ###s:
                container.string_content = re.sub(
                    r'[ \\t]+#+[ \\t]*$', '', re.sub(
                        r'^[ \\t]*#+[ \\t]*$',
                        '',
                        parser.current_line[parser.offset:]))
                parser.advance_offset(
                    len(parser.current_line) - parser.offset, False)
                return 2
""", """                # remove trailing ###s:
                content = parser.current_line[parser.offset:]
                content = re.sub(r'^[ \\t]*#+[ \\t]*$', '', content)
                content = re.sub(r'[ \\t]+#+[ \\t]*$', '', content)
                container.string_content = content
                parser.skip_line()
                return 2
"""), (B, """    def incorporate_line(self, ln):
""", """    def skip_line(self):
        self.advance_offset(len(self.current_line) - self.offset, False)

    def incorporate_line(self, ln):
"""))
edit('setext-helper', (B, """                # resolve reference link definitiosn
                while peek(container.string_content, 0) == '[':
                    pos = parser.inline_parser.parseReference(
                            container.string_content, parser.refmap)
                    if not pos:
                        break
                    container.string_content = container.string_content[pos:]
                if container.string_content:
""", """                parser.strip_definitions(container)
                if container.string_content:
"""), (B, """    def incorporate_line(self, ln):
""", """    def strip_definitions(self, block):
        while peek(block.string_content, 0) == '[':
            used = self.inline_parser.parseReference(
                block.string_content, self.refmap)
            if not used:
                return
            block.string_content = block.string_content[used:]

    def incorporate_line(self, ln):
"""))
edit('html-start-for', (B, """            for block_type in range(1, 8):
                if re.search(reHtmlBlockOpen[block_type], s) and \\
                   (block_type < 7 or container.t != 'paragraph'):
""", """            for block_type, opening in enumerate(reHtmlBlockOpen):
                if block_type == 0:
                    continue
                if block_type == 7 and container.t == 'paragraph':
                    break
                if opening.search(s):
"""))
edit('marker-late', (B, """    data = {
        'type': None,
        'tight': True,  # lists are tight by default
        'bullet_char': None,
        'start': None,
        'delimiter': None,
        'padding': None,
        'marker_offset': parser.indent,
    }
    if parser.indent >= 4:
        return None
    m = re.search(reBulletListMarker, rest)
    m2 = re.search(reOrderedListMarker, rest)
    if m:
        data['type'] = 'bullet'
        data['bullet_char'] = m.group()[0]
    elif m2 and (container.t != 'paragraph' or m2.group(1) == '1'):
        m = m2
        data['type'] = 'ordered'
        data['start'] = int(m.group(1))
        data['delimiter'] = m.group(2)
    else:
        return None
""", """    if parser.indent >= 4:
        return None
    kind = bullet_char = start = delimiter = None
    m = re.search(reBulletListMarker, rest)
    if m:
        kind = 'bullet'
        bullet_char = m.group()[0]
    else:
        m = re.search(reOrderedListMarker, rest)
        if not m or (container.t == 'paragraph' and m.group(1) != '1'):
            return None
        kind = 'ordered'
        start = int(m.group(1))
        delimiter = m.group(2)
    data = {
        'type': kind,
        'tight': True,  # lists are tight by default
        'bullet_char': bullet_char,
        'start': start,
        'delimiter': delimiter,
        'padding': None,
        'marker_offset': parser.indent,
    }
"""))
edit('marker-spaces', (B, """    while True:
        parser.advance_offset(1, True)
        nextc = peek(parser.current_line, parser.offset)
        if parser.column - spaces_start_col < 5 and \\
           is_space_or_tab(nextc):
            pass
        else:
            break
""", """    parser.advance_offset(1, True)
    while parser.column - spaces_start_col < 5 and \\
            is_space_or_tab(peek(parser.current_line, parser.offset)):
        parser.advance_offset(1, True)
"""))
edit('ends-for', (B, """    while block:
        if block.last_line_blank:
            return True
        if not block.last_line_checked and \\
                block.t in ('list', 'item'):
            block.last_line_checked = True
            block = block.last_child
        else:
            block.last_line_checked = True
            break

    return False
""", """    while block and not block.last_line_blank:
        inner = not block.last_line_checked and block.t in ('list', 'item')
        block.last_line_checked = True
        if not inner:
            return False
        block = block.last_child
    return block is not None
"""))
edit('item-width', (B, """        elif parser.indent >= (container.list_data['marker_offset'] +
                               container.list_data['padding']):
            parser.advance_offset(
                container.list_data['marker_offset'] +
                container.list_data['padding'], True)
        else:
            return 1
        return 0
""", """        else:
            d = container.list_data
            width = d['marker_offset'] + d['padding']
            if parser.indent < width:
                return 1
            parser.advance_offset(width, True)
        return 0
"""))
edit('rst-banner', (RS, """            heading_length = len(self.buf) - (self.buf.rfind('\\n') + 1)
            banner = heading_char * heading_length

            self.cr()
            self.out(banner)
            self.cr()
""", """            width = len(self.buf.rpartition('\\n')[2])
            self.cr()
            self.out(heading_char * width)
            self.cr()
"""))
edit('rst-level', (RS, """        try:
            heading_char = heading_chars[node.level-1]
        except IndexError:
            # Default to the last level if we're in too deep
            heading_char = heading_chars[-1]
""", """        heading_char = heading_chars[
            min(node.level, len(heading_chars)) - 1]
"""))
edit('rst-lines', (RS, """        indent = self.indent_char * indent_length
        new_lines = []

        for line in literal.splitlines():
            new_lines.append(indent + line)

        return '\\n'.join(new_lines)
""", """        pad = self.indent_char * indent_length
        return '\\n'.join(pad + line for line in literal.splitlines())
"""))
edit('render-handler', (RR, """            type_ = event['node'].t
            if hasattr(self, type_):
                getattr(self, type_)(event['node'], event['entering'])
            event = walker.nxt()
""", """            self.visit(event['node'], event['entering'])
            event = walker.nxt()
"""), (RR, """    def lit(self, s):
""", """    def visit(self, node, entering):
        method = getattr(self, node.t, None)
        if method is not None:
            method(node, entering)

    def lit(self, s):
"""))
edit('continue-helper', (B, """        while True:
            last_child = container.last_child
            if not (last_child and last_child.is_open):
                break
            container = last_child

            self.find_next_nonspace()
""", """        while container.last_child and container.last_child.is_open:
            container = container.last_child
            self.find_next_nonspace()
"""))
edit('close-flow', (B, """        if not self.all_closed:
            while self.oldtip != self.last_matched_container:
                parent = self.oldtip.parent
                self.finalize(self.oldtip, self.line_number - 1)
                self.oldtip = parent
            self.all_closed = True
""", """        if self.all_closed:
            return
        while self.oldtip is not self.last_matched_container:
            block, self.oldtip = self.oldtip, self.oldtip.parent
            self.finalize(block, self.line_number - 1)
        self.all_closed = True
"""))
edit('closer-init', (IN, """        openers_bottom = {
            '_': stack_bottom,
            '*': stack_bottom,
            "'": stack_bottom,
            '"': stack_bottom,
        }
""", """        openers_bottom = dict.fromkeys('_*\\'"', stack_bottom)
"""))



def apply(id, w):
    for f, old, new in EDITS[id]:
        p = os.path.join(w, f)
        s = open(p, encoding='utf-8').read()
        assert s.count(old) == 1, (id, f, s.count(old))
        open(p, 'w', encoding='utf-8').write(s.replace(old, new))


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, **kw)


def copy(id):
    w = '/tmp/refactor/%s' % id
    sh('rm -rf %s; mkdir -p %s' % (w, w))
    sh('git -C /repo archive HEAD | tar x -C %s' % w)
    apply(id, w)
    return w


def check(id, prop):
    w = copy(id + '')
    env = dict(os.environ, VERIF_REPO=w, VERIF_EVIDENCE='/tmp/refactor/ev')
    out = []
    for p in prop:          # p may be several properties: C12,C13
        r = sh('timeout 3000 python3 run.py %s quick' % p, cwd=ROOT, env=env)
        out.append((p, r.returncode, r.stdout))
    sh('rm -rf %s' % w)
    return id, out


def test(id):
    """does the edited copy still pass the suite"""
    w = copy(id)
    r = sh('python3 -m pytest -q -x commonmark/tests 2>&1 | tail -3; '
           'python3 commonmark/tests/run_spec_tests.py 2>&1 | tail -3',
           cwd=w, env=dict(os.environ, PYTHONPATH=w))
    sh('rm -rf %s' % w)
    return id, r.stdout


if __name__ == '__main__':
    a = sys.argv[1:]
    if a and a[0] == 'test':
        with ThreadPoolExecutor(8) as ex:
            for id, out in ex.map(test, a[1:] or sorted(EDITS)):
                print(id, out.strip().replace('\n', ' | ')[-200:])
        sys.exit()
    props, ids = (a[:a.index('--')], a[a.index('--') + 1:]) if '--' in a \
        else (a, [])
    with ThreadPoolExecutor(8) as ex:
        for id, out in ex.map(lambda i: check(i, props),
                              ids or sorted(EDITS)):
            for p, rc, o in out:
                und = sum(l.startswith('undecided') for l in o.splitlines())
                print('%-22s %s %s' % (id, p, 'quiet' if rc == 0 else
                                       '*** rc=%d' % rc),
                      'undecided %d' % und if und else '', flush=True)
                for l in o.splitlines():
                    if l.startswith(('undecided', 'property')) and not rc:
                        continue
                    print('       ', l[:300], flush=True)
