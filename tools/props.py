"""Which analyses decide which property."""
TB = ['clang 18 front end and LLVM IR semantics', 'gsa (the analyser in /verif/gsa)', 'reference data in /verif/spec/ucd, extracted from the Unicode 15.0.0 files']
KINDS = [('character', 'gcb'), ('word', 'wb'), ('sentence', 'sb'), ('line', 'lb')]
UNSAFE_READ = {'oob-read', 'null-deref', 'oob-table', 'oob-local'}


def brk(name, kind, mode=None):
    return [['break', 'grapheme_next_%s_break%s' % (name, u), kind] + ([mode] if mode else []) for u in ('', '_utf8')]


def kinds(*ks):
    ks = set(ks)

    def decide(res):
        return [v for r in res for v in r['violations'] if v['kind'] in ks]
    return decide


def agree(res):
    """A report about one variant that the other does not share."""
    out = []
    by = {}
    for r in res:
        k = (r['args'][0] + ' ' + r['args'][1].replace('_utf8', ''), r['args'][1].endswith('_utf8'))
        q = by.setdefault(k, dict(violations=[], cut=False, error=''))
        q['violations'] += r['violations']
        q['cut'] |= bool(r.get('cut'))
        q['error'] = q['error'] or r['error']
    for (f, u), r in by.items():
        other = by.get((f, not u))
        if not other or (other['error'] and not other['violations']):
            continue
        have = {v['sig'].replace('_utf8', '') for v in other['violations']}
        for v in r['violations']:
            if v['sig'].replace('_utf8', '') in have:
                continue
            # a search that ended early may have missed the same report
            if (other.get('cut') or other['error']) and any(w['kind'] == v['kind'] for w in other['violations']):
                continue
            out.append(v)
    return out


PROPS = {}
for pid, (n, k) in zip(('C08', 'C09', 'C10', 'C11'), KINDS):
    PROPS[pid] = dict(
        jobs=brk(n, k), decide=kinds('missed-break', 'wrong-break', 'offset', 'inside', 'uninit'), trusted=TB,
        rule='abstract interpretation of grapheme_next_%s_break and its UTF-8 variant, all callees inlined, in product with the '
             'rule automaton of the standard: at every loop head text behind the cursors is consumed by the automaton, which must not '
             'demand a boundary there, and at every return the automaton must demand one at the returned offset' % n,
        assumptions=['the UTF-8 variant sees grapheme_decode_utf8 through its contract (C01, C02)'])
PROPS['C16'] = dict(
    jobs=[j for n, k in KINDS for j in brk(n, k, 'safety')], decide=kinds('offset', 'inside', 'uninit'), trusted=TB,
    rule='same analysis without boundary rules: at every return the value must denote a position between the first and the last '
         'decoded unit of the text, 0 only for empty text',
    assumptions=['the UTF-8 variants see grapheme_decode_utf8 through its contract (C01, C02)'])
PROPS['C01'] = dict(
    jobs=[['decode']], modes=['int:0'], decide=lambda res: [v for r in res for v in r['violations'] if v['kind'] == 'decode-value' or v['kind'] in ('oob-table', 'uninit', 'nonterm') or (v['kind'] == 'decode-length' and 'well-formed' in v['sig'])],
    trusted=TB[:2], technique='exhaustive symbolic interpretation of the LLVM IR over byte classes, compared with the definition of well-formed UTF-8 (Unicode 15.0.0, table 3-7)',
    rule='at every return the sets of first bytes of the text that lead there are enumerated: the stored codepoint must be the one the bytes encode when they are well-formed and U+FFFD otherwise, and the returned length that of the sequence')
PROPS['C02'] = dict(
    jobs=[['decode']], modes=['int:0'], decide=lambda res: [v for r in res for v in r['violations'] if v['kind'] == 'decode-length' or v['kind'] in ('uninit', 'nonterm')],
    trusted=TB[:2], technique='exhaustive symbolic interpretation of the LLVM IR over byte classes, compared with the specified error lengths',
    rule='at every return the number returned must be the specified one for every byte sequence and length that leads there')
PROPS['C03'] = dict(
    jobs=[['encode']], modes=['int:0'], decide=kinds('encode-length', 'encode-bytes', 'encode-extra', 'encode-partial', 'oob-write', 'null-deref', 'uninit', 'nonterm', 'oob-table'),
    trusted=TB[:2], technique='symbolic interpretation of the LLVM IR over all 2^32 codepoints and buffer lengths, compared with the definition of UTF-8',
    rule='at every return the value and every cell of the buffer are compared with the UTF-8 form for all codepoints that lead there')
TITLE = [['case', 'grapheme_to_titlecase']] + [['case', 'grapheme_to_titlecase_utf8', 'part:%d/4' % i] for i in range(4)]
ISTITLE = [['iscase', 'grapheme_is_titlecase'], ['iscase', 'grapheme_is_titlecase_utf8']]
ISCASE = [['iscase', 'grapheme_is_%s%s' % (c, u)] for c in ('uppercase', 'lowercase') for u in ('', '_utf8')]
CASES = [['case', 'grapheme_to_%s%s' % (c, u)] for c in ('uppercase', 'lowercase') for u in ('', '_utf8')]
LOWER = [j for j in CASES if 'lower' in j[1]]
CM = ['fn:0', 'int:0']
CT = 'path-sensitive abstract interpretation of the LLVM IR against a transducer of the case mappings'
DEC = ['the UTF-8 variants see grapheme_decode_utf8 through its contract (C01, C02)']
PROPS['C17'] = dict(
    grace=60,
    jobs=[j for n, k in KINDS for j in brk(n, k)] + CASES + TITLE + ISCASE + ISTITLE, modes=lambda j: ['int:0', 'fn:2'] if j[0] == 'break' else CM, decide=agree, trusted=TB,
    rule='both variants are compared with the same rule automaton (or transducer) over decoded text; a deviation only one of them has is a disagreement',
    assumptions=['grapheme_decode_utf8 is seen through its contract (C01, C02)'])
PROPS['C06'] = dict(
    jobs=[['effects']], modes=['int:0'], decide=kinds('static-write', 'external-call', 'recursion', 'unknown-write'), trusted=TB[:2],
    technique='inclusion-based points-to and effect analysis of the LLVM IR',
    rule='every store and memory primitive of the compiled library is resolved to the objects its pointer may address: none is of static storage; every call resolves to a library function '
         'or to memcpy, memmove, memset, memcmp; the call graph has no cycle')
PROPS['C07'] = dict(
    jobs=[['effects']], modes=['int:0'], decide=kinds('const-write', 'unknown-write'), trusted=TB[:2],
    technique='inclusion-based points-to and effect analysis of the LLVM IR',
    rule='no store or memory primitive reached from a public function may address the object a pointer-to-const argument of a public function points to (constness from the debug information of the declaration)')
PROPS['C13'] = dict(
    jobs=CASES, modes=CM, decide=kinds('case-map', 'case-missing', 'rewrite'), trusted=TB, technique=CT, assumptions=DEC,
    rule='abstract interpretation of to-uppercase and to-lowercase with all callees, in product with the full case mapping of the consumed text: every unit written is compared, as a function of the codepoint it stems '
         'from, with the mapping for all codepoints that lead there, in order, and none that fits may be missing')
PROPS['C14'] = dict(
    jobs=LOWER, modes=CM, decide=kinds('sigma'), trusted=TB, technique=CT, assumptions=DEC,
    rule='the transducer carries whether a cased letter and case-ignorable ones precede and looks ahead in the abstract text; the unit written for U+03A3 must be the one Final_Sigma selects')
PROPS['C18'] = dict(
    jobs=CASES + TITLE, modes=CM, decide=kinds('case-len', 'case-nul', 'case-missing', 'uninit'), trusted=TB, technique=CT, assumptions=DEC,
    rule='at every return the value must denote the end of the complete result, as computed by the transducer with and without output buffer, everything that fits must have been written and a NUL must follow it')
PROPS['C05'] = dict(
    jobs=CASES + TITLE + [['encode']], modes=CM, decide=lambda res: [v for r in res for v in r['violations'] if v['kind'] == 'oob-write' or (v['kind'] == 'null-deref' and 'store' in v['msg'])], trusted=TB, technique=CT, assumptions=DEC,
    rule='every store through the output pointer on every abstract path must lie before the end of the output for all lengths the path admits, and there is none when the output is NULL')
WB = ['words are those found by iterating the word break function of the library, which is seen through its contract (C09, C16)']
PROPS['C19'] = dict(
    jobs=ISCASE, modes=CM, decide=kinds('iscase-result', 'iscase-offset', 'uninit'), trusted=TB, technique='path-sensitive abstract interpretation of the LLVM IR against an automaton of the case mappings', assumptions=DEC,
    rule='abstract interpretation of the tests in product with an automaton that marks the first codepoint the conversion changes: at every return the result must be true exactly when there is none, '
         'and the reported offset that of the mark, or the end of the text')
PROPS['C20'] = dict(
    jobs=TITLE, modes=CM, decide=kinds('case-map', 'sigma', 'case-missing', 'rewrite', 'title-word'), trusted=TB, technique=CT, assumptions=DEC + WB,
    rule='abstract interpretation of to-titlecase with all callees but the word break function, in product with a transducer that starts anew at every word break: every unit written is compared, as a function of '
         'its codepoint, with the verbatim, title or lower mapping its position in the word demands')
PROPS['C21'] = dict(
    jobs=ISTITLE, modes=CM, decide=kinds('iscase-result', 'iscase-offset', 'uninit', 'title-word'), trusted=TB, technique='path-sensitive abstract interpretation of the LLVM IR against an automaton of the case mappings', assumptions=DEC + WB,
    rule='as C19, with the titlecase mapping of each word')
NA = {}
for _i in ('C04 C12 C15 C22 C23 C24 C25').split():
    NA[_i] = 'check not built yet'
NA['C26'] = 'the levels are computed by nested data-dependent passes over a caller array of unbounded length; no static argument in reach relates the array contents to the rules'
NA['C27'] = 'the permutation is a product of data-dependent reversals of a caller array of unbounded length; no static argument in reach relates the array contents to the rules'
NA['C28'] = 'needs amortised bounds over runtime quantities (text length, lookahead length), which no sound static argument in reach gives'
