"""property -> (module, function, rule in one sentence)"""
REGISTRY = {
    'C01': ('html', 'check_c01', 'Abstract interpretation of '
            'HtmlRenderer.render for every node type in every reachable '
            'renderer context; every emitted piece of document text is '
            'judged by the character map applied to it and the HTML lexical '
            'state it lands in.'),
    'C02': ('html', 'check_c02', 'Same exploration with the safe option '
            'set: raw pieces must be absent and the regular language of '
            'destinations that reach an attribute (from the path\'s regex '
            'tests) must not meet the unsafe-scheme language.'),
    'C03': ('html', 'check_c03', 'Same exploration: emitted markup is '
            'lexed; start and end tags of each node must match as a stack, '
            'lexical state and non-text renderer fields must be restored.'),
    'C04': ('html', 'check_c04', 'Same exploration: each node\'s literal, '
            'children, destination and title pieces are counted on every '
            'path.'),
    'C07': ('render', 'check_c07', 'Abstract interpretation of every '
            'renderer and dump function with an observer on every store: no '
            'store may reach the tree or data that outlives the call, and '
            'each renderer field a rendering changes is reset before the '
            'first event or restored by every node.'),
    'C10': ('regexes', 'check_c10', 'Every constant pattern handed to the '
            're module is parsed and turned into a position automaton; a '
            'strongly connected part whose self product has a second path '
            'between the same states is an exponential repetition.'),
    'C17': ('tree', 'check_c17', 'Shape analysis: each editing method is '
            'interpreted on every shape of the neighbourhood of the nodes it '
            'is given (symbolic nodes beyond), and every link it leaves is '
            'compared with the edited sibling sequences.'),
    'C18': ('tree', 'check_c18', 'Transition table of the walker: from a '
            'symbolic node of each type and each combination of links, the '
            'event and its successor are compared with document order; the '
            'container test is interpreted for every type.'),
    'C21': ('render', 'check_c21', 'Abstract interpretation of the '
            'top-level function for every format constant and for an '
            'arbitrary other value, its parts replaced by markers: the '
            'result must be the marker of rendering the parse of the '
            'text.'),
    'C22': ('render', 'check_c22', 'Abstract interpretation of '
            'ReStructuredTextRenderer.render for every node type in every '
            'reachable context: no path may raise, renderer state is '
            'restored, child text and literals are emitted once.'),
    'C05': ('history', 'check_c05', 'Live-field analysis over the calls and '
            'receivers resolved by abstract interpretation of the parser: a '
            'field of a parser object that a parse changes may not be read '
            'by a parse before that parse has written it.'),
    'C06': ('history', 'check_c06', 'Abstract interpretation of the '
            'constructors, the parser, the renderers, the dump functions '
            'and the top-level function with an observer on every store: '
            'none may reach module or class data, a default argument or the '
            'options mapping.'),
    'C11': ('history', 'check_c11', 'Call graph of parsing and rendering '
            'with dynamic calls resolved by abstract interpretation: a cycle '
            'that can be entered a second time from its own calls is a '
            'recursion whose depth the input decides.'),
    'C14': ('refs', 'check_c14', 'Path-sensitive interpretation of every '
            'function that stores or looks up a definition: a store needs '
            'the fact that the key is absent, stored and looked-up keys '
            'derive from labels by the same operations, nothing is stored '
            'after a lookup, both use one map, and a stored title is a part '
            'of the consumed text.'),
    'C25': ('text', 'check_c25', 'Abstract interpretation of the inline '
            'parser on a backslash followed by any character, of the '
            'replacement of escapes and of the destination scan, each path '
            'judged by the characters it applies to; titles, destinations '
            'and info strings must pass the replacement exactly once.'),
    'C15': ('fast', 'check_c15', 'For every block start the first characters '
            '(and short lines) on which it succeeds, from interpreting it, '
            'must be among those with which the line loop calls it; a run of '
            'ordinary text must not hold a character the inline dispatch '
            'sends to another parser; where a substitution is skipped, the '
            'language of the texts left over must not meet that of its '
            'matches.'),
    'C16': ('noraise', 'check_c16', 'Every exception a function of the parser '
            'may end with is collected from interpreting it; it is a '
            'violation where the offending value is a text and position, the '
            'result of a match or own function that may be None, a missing '
            'end of a chain of nodes, a variable not set on the path, a key '
            'nothing guarantees, or a conversion; exceptions that hang on the '
            'shape of the tree are undecided.'),
    'C19': ('positions', 'check_c19', 'At every call that closes a block the '
            'line number given and the line whose length has been stored on '
            'the path must be the same line; every line stores its length '
            'and is counted once; blocks are opened with the number of the '
            'current line, and the end of input closes with the number of '
            'lines parsed.'),
    'C23': ('verbatim', 'check_c23', 'Every store of a literal into a code, '
            'code block, HTML block or inline HTML node is judged by how the '
            'value derives from the input: a contiguous span of the subject '
            '(equal runs of backticks cut off), or the collected lines with '
            'only blank lines removed at the end; lines are appended from the '
            'current position to their end with a split tab as spaces.'),
    'C24': ('lines', 'check_c24', 'The parse entry is interpreted on any '
            'input: the operation that cuts it into lines is found by the '
            'origin of its subject and the language it cuts at must be '
            'exactly LF, CRLF and CR (regular-language equality); the number '
            'of lines after each final ending must be the same; no CR may be '
            'among the characters inferred for lines and block texts.'),
    'C09': ('loops', 'check_c09', 'Every loop of the parser is interpreted to '
            'its fixed point and then one more turn is followed path by '
            'path: a turn on which everything the tests of the loop depend '
            'on is left as it was, or may be, is a loop that need not end. '
            'Loops elsewhere are searched for a path round that assigns '
            'nothing their condition reads.'),
    'C08': ('conserve', 'check_c08', 'The step function of the inline parser '
            'is interpreted, path by path, on every kind of first character '
            'followed by any text: the position must have advanced, and where '
            'no construct is put in the tree the texts put there must be the '
            'consumed text, in order and of equal length.'),
    'C20': ('smart', 'check_c20', 'The function that replaces a run of '
            'hyphens is interpreted on runs of length 12k+r, k symbolic, for '
            'every residue: the dashes must be worth the run. The inline '
            'parser is interpreted on quotes, hyphens, periods and ordinary '
            'text with and without the option; delimiters that get a curly '
            'quote must be known to be quotes of that kind.'),
    'C12': ('parser', 'check_c12', 'Fixed point over all functions reachable '
            'from Parser.parse inferring the characters of every field and '
            'parameter; no store into a field of a node may hold U+0000.'),
    'C13': ('parser', 'check_c13', 'Same fixed point: the characters of '
            'every value stored as a destination must be URL-safe ASCII.'),
}

TRUST = ('Assumes the models of the Python operations in sa/models.py; '
         'paths the analysis cannot decide are listed as undecided in the '
         'evidence and raise no alarm. ')

MANIFEST_NOTES = {
    'C01': ('abstract interpretation: string provenance and character maps '
            'through the renderer, HTML lexing of the emitted pieces',
            TRUST + 'Covers every node type in every reachable renderer '
            'context, one event sequence at a time (inductive over trees).'),
    'C02': ('abstract interpretation with regular-language tests on '
            'destinations', TRUST + 'The scheme test is decided as inclusion '
            'of regular languages, for all destinations.'),
    'C03': ('abstract interpretation: tag stack and lexical state per node',
            TRUST + 'Induction: each node keeps the stack balanced for '
            'arbitrary balanced child output.'),
    'C04': ('abstract interpretation: counting of content pieces per path',
            TRUST + 'Every path of every node handler.'),
    'C10': ('regular-expression ambiguity analysis (position automata)',
            'Covers every pattern that is a constant in the source; patterns '
            'computed at run time are listed. Look-arounds are treated as '
            'always satisfiable.'),
}
MANIFEST_NOTES.update({
    'C15': ('abstract interpretation with character partitions and regular-'
            'language inclusion: partition of first characters', TRUST +
            'First characters are complete per block start; whole lines are '
            'compared up to two characters and only where the path holds '
            'nothing but character classes and patterns.'),
    'C17': ('shape analysis of the editing methods over symbolic '
            'neighbourhoods', TRUST + 'Complete for the neighbourhood shapes '
            'built; an access beyond them is detected and reported as '
            'undecided.'),
    'C18': ('abstract interpretation of the walker\'s transition function',
            TRUST + 'Induction over steps.'),
    'C16': ('abstract interpretation: exceptional paths', TRUST +
            'Positions are assumed to lie within the text when a function '
            'starts; negative indices and fields of nodes that may be None '
            '(tip, parent, string_content, list_data) are not decided.'),
    'C19': ('typestate on the length of the current line, by abstract '
            'interpretation', TRUST + 'Contexts are propagated from call '
            'sites; start columns are not judged.'),
    'C21': ('abstract interpretation with marked components', TRUST),
    'C22': ('abstract interpretation: exceptional paths, state '
            'restoration and content pieces', TRUST + 'Induction over the '
            'tree as for C03.'),
    'C07': ('abstract interpretation with effect tracking (stores by '
            'owner)', TRUST),
    'C14': ('path-sensitive abstract interpretation: map facts, derivation '
            'chains of the keys, call order, source spans of titles', TRUST),
    'C23': ('path-sensitive abstract interpretation with provenance of '
            'texts (spans and operation chains); regular-language inclusion',
            TRUST),
    'C24': ('abstract interpretation of the entry with regular-language '
            'equality; character-set inference', TRUST),
    'C09': ('abstract interpretation of one turn of each loop with linear '
            'arithmetic over positions: state compared before and after',
            TRUST + 'Finds turns without progress; does not prove a ranking '
            'for loops whose progress lies in the shape of the tree.'),
    'C08': ('path-sensitive abstract interpretation with linear arithmetic '
            'over positions and source spans of the texts', TRUST),
    'C20': ('abstract interpretation with linear arithmetic over the length '
            'of the run; regular-language inclusion for the patterns',
            TRUST),
    'C25': ('abstract interpretation with character partitions; '
            'regular-language equality for the escape patterns', TRUST),
    'C05': ('live-field dataflow analysis on calls and receivers resolved by '
            'whole-program abstract interpretation', TRUST + 'A field that '
            'may be left over only when a loop before its reset does not run '
            'is listed as undecided.'),
    'C06': ('whole-program abstract interpretation with effect tracking '
            '(stores by owner)', TRUST),
    'C11': ('call-graph analysis (cycles) with calls resolved by abstract '
            'interpretation', TRUST + 'Recursion inside library functions is '
            'covered for copying, serialising and comparing.'),
    'C12': ('whole-program abstract interpretation: character-set inference '
            'for every field and parameter', TRUST),
    'C13': ('whole-program abstract interpretation: character-set inference '
            'for destinations', TRUST),
})

NOT_APPLICABLE = {
}
