#!/usr/bin/env python3
"""Writes ../properties.jsonl (one place to edit the statements)."""
import json
import os

H = 'commonmark/render/html.py'
R = 'commonmark/render/renderer.py'
RS = 'commonmark/render/rst.py'
B = 'commonmark/blocks.py'
IN = 'commonmark/inlines.py'
N = 'commonmark/node.py'
CO = 'commonmark/common.py'
M = 'commonmark/main.py'
D = 'commonmark/dump.py'
NR = 'commonmark/normalize_reference.py'

P = []


def p(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, id
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {
            'files': files,
            'mechanism': [{'name': a, 'where': b} for a, b in mech],
            'observe_at': observe or [],
            'hook_needed': None,
        },
    })


p('C01', 'Rendered HTML escapes all document text exactly once',
  'In the HTML output every piece of document text (text, code, code block '
  'contents and info word, link and image destinations and titles) appears '
  'with each of & < > " replaced exactly once by its character reference and '
  'nothing else changed. Only raw HTML inlines and raw HTML blocks are '
  'emitted unescaped, never inside an attribute value. This holds for every '
  'tree, at any nesting of images, and with any options.',
  ['inputs', 'configurations'],
  'every document text, every node type in every renderer context (inside '
  'images or not), every option setting',
  'The spec tests render a few hundred fixed documents; a missed or doubled '
  'escape shows only for a particular character in a particular node field '
  'in a particular context (an attribute inside an image description).',
  [H, CO, R],
  [('escape_xml and its character table', CO),
   ('HtmlRenderer.out / tag / attrs', H)],
  ['HtmlRenderer.render result'])
p('C02', 'Safe mode emits no raw HTML and no dangerous destinations',
  'With the safe option the HTML output contains no raw HTML from the '
  'document and no href or src whose destination starts, in any letter case, '
  'with javascript:, vbscript:, file: or data:, except data: images of type '
  'png, gif, jpeg or webp. Destinations that contain none of those scheme '
  'names are still emitted in full.',
  ['inputs', 'configurations'],
  'every link and image destination string, every raw HTML node, in every '
  'renderer context, with the safe option on',
  'No upstream test quantifies over destinations; letter-case variants, '
  'data: subtypes and images inside links are unsampled.',
  [H],
  [('potentially_unsafe, reUnsafeProtocol, reSafeDataProtocol', H),
   ('HtmlRenderer.link, image, html_inline, html_block', H)],
  ['HtmlRenderer.render result'])
p('C03', 'HTML output is well nested',
  'Apart from raw HTML copied from the document, every element the HTML '
  'renderer opens for a node is closed by the same node in stack order, '
  'every attribute value is properly quoted, and tags never occur inside an '
  'attribute value. Leaving a node restores the renderer to the state in '
  'which it was entered, so nothing leaks into the siblings that follow.',
  ['inputs', 'configurations'],
  'every tree of nodes, images nested to any depth, every option setting',
  'Well-formedness is a property of all nestings; tests compare fixed '
  'outputs for documents with at most a few levels.',
  [H, R],
  [('disable_tags counter, tag, lit', H)],
  ['HtmlRenderer.render result'])
p('C04', 'No document content is lost or duplicated in HTML',
  'Every node type the parser can produce has a rendering: the literal of a '
  'text, code, code block and raw HTML node is emitted exactly once, child '
  'content exactly once between the node\'s start and end markup, and a '
  'destination and title of a link or image outside image descriptions '
  'exactly once (subject to safe mode). An ordered list keeps its start '
  'number and a heading its level.',
  ['inputs', 'configurations'],
  'every tree, every field value, every renderer option setting',
  'Tests compare fixed outputs; a field dropped only in one context (a title '
  'inside a tight list, a literal inside an image) is not sampled.',
  [H, R, B, IN],
  [('Renderer.render dispatch', R), ('HtmlRenderer node methods', H)],
  ['HtmlRenderer.render result'])
p('C05', 'A parser can be reused: results depend only on the text',
  'Parsing a text with a parser object that has parsed any other texts '
  'before gives the same tree as parsing it with a new parser with the same '
  'options. No definitions, positions, counters or open blocks survive from '
  'an earlier parse.',
  ['histories', 'inputs'],
  'every sequence of texts parsed by one parser object',
  'Tests build a new parser for almost every example; leftover state shows '
  'only for particular pairs of texts.',
  [B, IN],
  [('Parser.parse resets', B), ('InlineParser.parseInlines resets', IN)],
  ['Parser.parse result'])
p('C06', 'Calls share no state through defaults, globals or options',
  'Constructing or using parsers and renderers and calling the top-level '
  'functions never changes module-level data, class-level data, default '
  'argument values or an options mapping given by the caller. Independent '
  'parsers and renderers therefore cannot influence each other.',
  ['histories', 'inputs', 'configurations'],
  'every sequence of constructions, parses and renders in one process',
  'Leaks through mutable defaults or shared tables show only in a second '
  'object created later in the same process; the tests hold one at a time.',
  [B, IN, N, H, RS, R, M, D, CO, NR],
  [('mutable default arguments', 'Parser, InlineParser, HtmlRenderer'),
   ('class-level tables', B)],
  ['Parser.parse result', 'HtmlRenderer.render result'])
p('C07', 'Rendering and dumping leave the tree unchanged and repeatable',
  'Rendering a tree to HTML or reStructuredText, or dumping it, changes no '
  'node of the tree. Rendering again with the same renderer object gives the '
  'same result as a new renderer.',
  ['histories', 'inputs'],
  'every tree, every sequence of renderings and dumps of it',
  'Tests render each tree once with a fresh renderer.',
  [H, RS, R, D, N],
  [('Renderer.render resets', R), ('dumpAST, dumpJSON', D)],
  ['renderer results', 'node fields'])
p('C08', 'Inline parsing always advances and declined syntax consumes nothing',
  'At every step of inline parsing the position moves forward, and an '
  'inline construct that turns out not to match consumes no text beyond '
  'what it puts in the tree as literal text. No part of a paragraph '
  'therefore disappears because a construct was tried and rejected.',
  ['inputs'],
  'every subject text and position',
  'Whether text disappears depends on near-miss syntax (an inline link '
  'that fails after its title, then continues); tests hold a handful.',
  [IN],
  [('InlineParser.parse* position save and restore', IN)],
  ['Parser.parse result'])
p('C09', 'Parsing and rendering terminate',
  'Every loop that parsing, rendering and dumping run makes progress on each '
  'turn: it advances through a finite text or structure or counts down to '
  'a bound. No input makes a call run for ever.',
  ['inputs'],
  'every input text and every tree',
  'A loop that stalls needs one particular input; a test that passes says '
  'nothing about others.',
  [B, IN, N, R, RS, D],
  [('loops of the block and inline parser', B + ', ' + IN)],
  ['Parser.parse', 'render'])
p('C10', 'No regular expression takes exponential time',
  'None of the regular expressions the package uses can match one text in '
  'exponentially many ways, so no input makes a single match attempt take '
  'time exponential in its length.',
  ['inputs'],
  'every subject text, every regular expression in the package',
  'Catastrophic backtracking needs an adversarial text per expression; the '
  'pathological tests cover a few shapes.',
  [B, IN, CO, H, N, NR],
  [('module-level patterns', B + ', ' + IN + ', ' + CO)],
  ['Parser.parse'])
p('C11', 'Nesting depth never exhausts the call stack',
  'Parsing and rendering use a call stack whose depth does not depend on '
  'how deeply blocks and inlines nest in the document. A deeply nested '
  'document therefore never raises a recursion error.',
  ['inputs'],
  'every nesting depth',
  'Tests reach nesting depths far below the recursion limit.',
  [B, IN, N, R, H, RS],
  [('NodeWalker, delimiter stack, block loop', N + ', ' + IN + ', ' + B)],
  ['Parser.parse', 'render'])
p('C12', 'U+0000 never reaches the tree',
  'Every U+0000 in the input is replaced by U+FFFD, and no character '
  'reference or escape can bring it back: no text, literal, destination, '
  'title or info string of a parsed tree contains U+0000.',
  ['inputs'],
  'every input text, NUL at any place in any construct',
  'One test covers one NUL in a paragraph; the guarantee is about every '
  'construct.',
  [B, IN, CO],
  [('NUL replacement when a line is read', B)],
  ['Parser.parse result'])
p('C13', 'Link destinations contain only URL-safe ASCII characters',
  'Every link and image destination in a parsed tree, from inline links, '
  'reference definitions and autolinks alike, consists only of ASCII '
  'characters that are legal in a URL; everything else, spaces, quotes, '
  'angle brackets and backslashes included, has been percent-encoded.',
  ['inputs'],
  'every link, image, reference definition and autolink',
  'Which characters survive depends on the construct and the character; '
  'tests sample a few.',
  [IN, CO],
  [('normalize_uri at every place a destination is made', IN)],
  ['node destination'])
p('C14', 'Link references resolve to the first matching definition',
  'A reference resolves to the first definition in the document whose label '
  'is equal after normalisation, the same normalisation being applied to '
  'definitions and references, wherever the definition stands. A rejected '
  'title contributes nothing to the definition.',
  ['inputs'],
  'every document with definitions and references, in any order',
  'The tests sample a few orders and labels.',
  [IN, B, NR],
  [('parseReference, parseCloseBracket, refmap', IN),
   ('Paragraph.finalize, process_inlines', B)],
  ['Parser.parse result'])
p('C15', 'Fast paths never hide a construct',
  'The quick tests that let the parser skip work (the first-character test '
  'before block starts, the run of ordinary characters, the tests for '
  'special characters before unescaping or escaping) accept every text in '
  'which the skipped work could have found something.',
  ['inputs'],
  'every line and every run of text',
  'A character missing from a fast-path class shows only for the construct '
  'that starts with it.',
  [B, IN, CO],
  [('reMaybeSpecial', B), ('reMain', IN),
   ('reBackslashOrAmp, reXmlSpecial', CO)],
  ['Parser.parse result'])
p('C16', 'Parsing never raises for any text',
  'Parsing accepts every string: no input makes it read past the end of a '
  'text or list, use the result of a match that failed, use a variable that '
  'was not set, use a missing field, or fail to encode a character.',
  ['inputs'],
  'every string, including empty, very short and ill-formed ones',
  'An index or missing-value error needs one particular shape of input.',
  [B, IN, CO, NR],
  [('guards around indexing and matching', B + ', ' + IN)],
  ['Parser.parse'])
p('C17', 'Tree editing keeps the links between nodes consistent',
  'Appending, prepending, inserting before or after, and unlinking keep the '
  'tree doubly linked: sibling links mirror each other, first and last child '
  'and parent links agree with the sibling chain, an unlinked node has no '
  'parent and no siblings, and a moved node leaves its old place completely.',
  ['histories', 'inputs'],
  'every tree shape around the nodes involved and every sequence of edits',
  'The unit tests exercise each operation on one or two small shapes.',
  [N],
  [('Node.append_child, prepend_child, insert_before, insert_after, unlink',
    N)],
  ['Node links'])
p('C18', 'Walking a tree visits every node in document order',
  'Walking yields every node of the subtree and nothing else, in document '
  'order: a container once on entering and once on leaving, with its '
  'children in between, any other node once. What counts as a container is '
  'decided by the node type alone, alike everywhere.',
  ['inputs'],
  'every tree shape and node type, every starting node',
  'Tests walk a few fixed trees.',
  [N],
  [('NodeWalker.__next__, is_container', N)],
  ['walker events'])
p('C19', 'Source positions of a block end on the line they name',
  'When a block is closed, the end line and the end column recorded for it '
  'belong together: the column is the length of the line with that number. '
  'Line numbers count input lines from one.',
  ['inputs'],
  'every document and every way a block can end',
  'Only one test looks at positions; which line a block ends on depends on '
  'how it is closed.',
  [B],
  [('Parser.finalize and its callers, last_line_length', B)],
  ['sourcepos'])
p('C20', 'Smart punctuation conserves what it replaces',
  'With smart punctuation a run of n hyphens becomes em and en dashes worth '
  'exactly n hyphens (three per em dash, two per en dash) for every n of two '
  'or more, and every straight quote becomes exactly one curly quote of its '
  'kind; three periods become an ellipsis. Nothing else in the text changes, '
  'and without the option nothing changes at all.',
  ['inputs', 'configurations'],
  'every run length, every quote, option on and off',
  'Tests sample a few run lengths.',
  [IN],
  [('smart_dashes, parseString, handleDelim, processEmphasis', IN)],
  ['text literals'])
p('C21', 'The top-level function matches the parser and renderers',
  'For each format the top-level call gives exactly what parsing with a '
  'default parser and rendering or dumping with the default renderer of that '
  'format gives. Any other format raises ValueError.',
  ['inputs', 'configurations'],
  'every text and every format value',
  'Tests check the formats on one document.',
  [M],
  [('commonmark()', M)],
  ['commonmark() result'])
p('C22', 'reStructuredText rendering works for every tree and restores indent',
  'Every tree the parser produces renders to reStructuredText without an '
  'error. Leaving a node restores the indentation in force when it was '
  'entered, and the text, code and code block literals of the tree appear '
  'in the output in order.',
  ['inputs'],
  'every tree, every nesting, every node type',
  'The tests render a few small documents.',
  [RS, R],
  [('ReStructuredTextRenderer node methods', RS)],
  ['ReStructuredTextRenderer.render result'])
p('C23', 'Code and raw HTML contents are verbatim',
  'The literal of a code block, HTML block, code span or inline raw HTML is '
  'taken from the input characters without unescaping, entity decoding or '
  'smart punctuation; apart from removal of fences, indentation and '
  'trailing blank lines, tab expansion of indentation, replacement of U+0000 '
  'and the code span rules for line endings and for one space at either end '
  'nothing is changed.',
  ['inputs', 'configurations'],
  'every code or raw HTML construct, every content',
  'Contents that would show a stray transformation are sampled thinly.',
  [B, IN],
  [('CodeBlock.finalize, HtmlBlock.finalize', B),
   ('parseBackticks, parseHtmlTag', IN)],
  ['node literal'])
p('C24', 'LF, CRLF and CR are interchangeable line endings',
  'Replacing line endings by any other of LF, CRLF and CR gives the same '
  'tree, also for a final line ending, and no other character ends a line. '
  'No line ending of the input other than LF reaches the tree.',
  ['inputs'],
  'every text and every mixture of line endings',
  'The tests use LF almost everywhere.',
  [B],
  [('reLineEnding and the final line rule in Parser.parse', B)],
  ['Parser.parse result'])
p('C25', 'Exactly the ASCII punctuation characters can be escaped',
  'A backslash before an ASCII punctuation character stands for that '
  'character in text, link destinations, titles and info strings; before '
  'any other character it is a literal backslash. The set is the same in '
  'all those places.',
  ['inputs'],
  'every character after a backslash in every place',
  'The tests escape each character in paragraph text only.',
  [IN, CO],
  [('ESCAPABLE and its users', CO + ', ' + IN)],
  ['Parser.parse result'])

if __name__ == '__main__':
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root, 'properties.jsonl'), 'w') as fh:
        for x in P:
            fh.write(json.dumps(x) + '\n')
