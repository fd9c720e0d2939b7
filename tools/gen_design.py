"""
Rewrites the per-property section of DESIGN.md (between the two marker lines) from properties.jsonl, the
check modules and the descriptions of encodings and oracles below.
"""
import importlib
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)

# property: (code executed symbolically, oracle)
HOW = {
    'C01': ('reading of the .aff and .dic text, affix index, `Lookup.__call__` down to affix forms',
            'Generation instead of analysis (`checks/lang.py`): every text obtainable from an entry by at most one prefix and two suffixes (two and one with '
            'COMPLEXPREFIXES), each guarded by the formula "all flags needed for it are carried". The solver must find `lookup(w)` equivalent to the '
            'disjunction of "w equals the text and the guard holds".'),
    'C02': ('as C01',
            'The forms of C01 with the usage rules added to each guard, per homonym: ONLYINCOMPOUND on entry, prefix or inner suffix; NEEDAFFIX on the bare entry or on '
            'all affixes; CIRCUMFIX on both or none.'),
    'C03': ('as C01, plus letter-case variants, breaking and compounding',
            'Forms with the guard "no homonym of the stem is forbidden" (affixed forms, parts of compounds) or "not all are" (bare words), lifted to '
            'capitalised, upper-case and hyphenated spellings.'),
    'C04': ('`Casing` and the case handling of `Lookup`',
            'From each form all spellings that may be written for it (as is, capitalised, all capitals); a word is accepted exactly when one of them is equal '
            'to it; KEEPCASE removes all but the first.'),
    'C05': ('`GermanCasing`, `TurkicCasing`, case handling of `Lookup`',
            'Reference upper-casing by the language\'s pairing; for sharp s all readings of each SS enumerated on the specification side.'),
    'C06': ('compound analysis by flags, affix analysis of parts, reading of all compounding directives',
            'All concatenations of forms of the right total length, each guarded by the formula "every part is permitted at its place" (flags from entry or '
            'affixes, permit and forbid flags of inner affixes, COMPOUNDMIN, COMPOUNDWORDMAX).'),
    'C07': ('reading of COMPOUNDRULE, rule-based compounding',
            'Own matcher for rules over flag alternatives: all splits into entries, for each split a formula "some choice of one carried flag per part is in the '
            'language of some rule".'),
    'C08': ('`CompoundPattern`, the rejecting checks of compounds, FORCEUCASE, SIMPLIFIEDTRIPLE',
            'For each pair of symbolic parts the documented condition of each enabled check, written directly on the characters at the boundary.'),
    'C09': ('`Lookup.break_word` and its use',
            'Recursive definition: accepted as a whole, or some cut whose pieces satisfy the definition, with the acceptance of a piece given by the entries.'),
    'C10': ('number detection, IGNORE handling in readers and lookup, ICONV',
            'Grammar of numbers; for IGNORE and ICONV the stripped or converted word (own converter) must get the answer of a dictionary without the directive.'),
    'C11': ('every generator of `permutations.py`, called directly',
            'The set of candidates built by index arithmetic from the definition of the edit; equality of sets is a formula over the characters of the word '
            '(each produced candidate equals a required one and vice versa).'),
    'C12': ('all of `Suggest` with n-grams off, `Lookup`',
            'Each suggestion, or each of its parts at spaces or dashes, is given back to lookup on the same path.'),
    'C13': ('all of `Suggest` with n-grams off',
            'For each word of the dictionary (with the formula for being suggestible) and each kind of edit, the formula "the word is one such edit away"; it must '
            'imply that the word is among the suggestions.'),
    'C14': ('all of `Suggest` including n-gram and phonetic suggestions',
            'For each suggestion text the formula over flags "has a forbidden homonym" or "all entries are unsuggestible" must be unsatisfiable.'),
    'C15': ('all of `Suggest`',
            'Pairwise difference of suggestions; number and inclusion of those added by n-gram or phonetic search, found by comparison with a dictionary that has it '
            'switched off.'),
    'C16': ('`Suggest.suggestions`, `Casing.coerce`, OCONV',
            'Letter-case pattern of the misspelling against the pattern of each suggestion; conversion by the own converter of the suggestions of the '
            'dictionary without OCONV.'),
    'C17': ('every function of `string_metrics.py`, called directly',
            'Maximum over all common subsequences, counts of equal positions, counts of n-grams, as arithmetic over equality formulas.'),
    'C18': ('`ngram_suggest` and what it calls, affix forms of entries',
            'Reference implementation of the documented scores (`checks/metrics.py`) over the generated forms; required set, order up to equal scores, and '
            'monotonicity in MAXDIFF.'),
    'C19': ('reading of PHONE, `metaphone`, `phonet_suggest`',
            'Own left-to-right coder from the rule syntax; ranking by the reference scores.'),
    'C20': ('`read_dic`, `Dic`',
            'Own reader of a line, character by character; lower-case spellings from the definition.'),
    'C21': ('`read_aff` and all of its directive readers',
            'The value written in the line, field by field, on symbolic fields.'),
    'C22': ('`Context.parse_flags` and everything lookup uses',
            'The same dictionary written with single-character flags: both answers must agree for every subset of flags.'),
    'C23': ('`FileReader`, `ZipReader`, and `read_aff`/`read_dic` on top',
            'The list of non-blank lines of the (symbolic) file, converted to what its bytes look like in the encoding it is read with. Files live in a '
            'virtual file system with symbolic characters; zip archives are real files with case-split content.'),
    'C24': ('`from_system`, `from_files` and the readers',
            'The standard folders are replaced by virtual ones in which the presence of every file is a formula, so each question of the code to the file system forks; '
            'the dictionary opened must be the one of the first folder whose formula holds. Replays use scratch folders in place of the system ones.'),
    'C25': ('everything',
            'No exception and no more than the step limit on any path; the result is a boolean and strings.'),
    'C26': ('everything',
            'The answer after symbolic earlier questions equals the answer of the same dictionary loaded anew with module state reset; description of words and '
            'directive values before and after.'),
    'C27': ('`Trie` directly; loading and use of affix tables',
            'The multiset of values whose key is a prefix of the text, as formulas.'),
    'C28': ('reading of ICONV/OCONV, `ConvTable`',
            'Own converter: longest pattern at each position.'),
    'C29': ('all of `Suggest` with n-grams off, reading of REP and `ph:`',
            'All single replacements at all places; where the result is suggestible (formula over flags) it must be among the suggestions and everything before it must be a '
            'replacement too. Acceptance is compared with a dictionary without REP.'),
    'C30': ('everything lookup uses, with a solver variable for the permutation',
            'Answer of the dictionary in the original order.'),
    'C31': ('all of `Suggest`',
            'For each pair of suggestions x before y: no kind of edit gives y that comes before every kind giving x, the kinds described by own formulas over the characters.'),
    'C32': ('`Casing`, `TurkicCasing`, `GermanCasing`, called directly',
            'Own classification by counting capitals and cased letters, own lists of spellings.'),
    'C34': ('all of `Suggest` with n-grams off, `Lookup`',
            'Formula over the flags: the word is the lower-case spelling of an entry or of a permitted compound.'),
    'C35': ('`mapchars` on tables read from .aff text; `Suggest`',
            'Own enumeration of places and replacements, each guarded by "the member stands here and not before".'),
    'C37': ('all of `Suggest` with n-grams off, `Lookup`',
            'Own list of spellings; a spelling is good when an own formula over the flags (forms, compounds of two, NOSUGGEST, FORBIDDENWORD) says so.'),
    'C38': ('all of `Suggest`, `Lookup`',
            'Own cuts of the word; the first that is an entry without NOSUGGEST or FORBIDDENWORD must be the last suggestion.'),
    'C39': ('`Lookup.good_forms` and everything below it',
            'Own generation of all forms (entry, prefixes, suffixes) and of all sequences of parts, each with the condition on the flags under which it is permitted.'),
    'C40': ('`Lookup.__call__` with its options',
            'The ordinary lookup of the dictionary without the entries in question; own list of words and compounds as spelled.'),
    'C41': ('`Suggest.suggestions`, `edit_suggestions`, `edits`, `twowords`, `Lookup.good_forms`',
            'Own list of the splits whose parts are entries, suffixed entries or compounds with suitable flags, compared as a sequence.'),
    'C36': ('reading of directives, everything lookup and suggest use',
            'Answer of the dictionary without the directive.'),
    'C33': ('all of `Suggest` with n-grams off, `Lookup`',
            'The list is assembled from separate questions to the code: which part is not accepted, what is suggested for it alone, whether the whole is accepted; a second '
            'dictionary without the NOSUGGEST entries and without OCONV answers them.'),
}
NOT_APPLICABLE = {
}
START, END = '<!-- properties: written by tools/gen_design.py -->', '<!-- end of properties -->'

BUGS, BUGS_END = '<!-- bugs: written by tools/gen_design.py -->', '<!-- end of bugs -->'
# planted bugs the check of their property does not notice, and those it notices only since it was extended because of them
MISSED = []
STRENGTHENED = ['c07-sign-flags', 'c20-tag-letters', 'c21-syllables', 'c41-rep-dash', 'c18-cross', 'c18-map-reliable', 'c13-compounds-after-map', 'c08-left-dash', 'c15-default-compounds', 'c26-answers', 'c20-two-of-a-case', 'c18-ten-roots', 'c08-entry-flags', 'c01-nested-cross', 'c32-capitalise', 'c09-first-cuts', 'c10-ignore-first', 'c13-eight', 'c13-compound-key', 'c11-key-once', 'c15-phonet-dup', 'c04-keepcase-affix', 'c16-turkic', 'c19-lookahead', 'c20-old-tags', 'c21-map-groups',
                'c27-depth', 'c30-lower-first']


def main():
    costs = {}
    for i in HOW:
        path = os.path.join('/verif/evidence', i + '.json')
        if os.path.exists(path):
            e = json.load(open(path, encoding='utf-8'))
            if e.get('tier') == 'quick' and 'coverage' in e:
                c = e['coverage']
                costs[i] = f"{c['paths']} paths, {c['queries_discharged']} solver queries, about {max(1, round(e['wall_s']))} s on 8 cores"
    out = []
    for line in open(os.path.join(VERIF, 'properties.jsonl'), encoding='utf-8'):
        p = json.loads(line)
        i = p['id']
        out.append(f"### {i} {p['title']}\n")
        if i in NOT_APPLICABLE:
            out.append(f'Not applicable: {NOT_APPLICABLE[i]}\n')
            continue
        m = importlib.import_module('checks.' + i.lower())
        code, oracle = HOW[i]
        out.append(f'* Encoded: {code}.')
        out.append(f'* Oracle: {oracle}')
        out.append(f"* Bounds (quick): {m.BOUNDS['quick']}. Thorough: {m.BOUNDS['thorough']}.")
        out.append(f'* Outside: {m.OUTSIDE}.')
        for a in m.ASSUMPTIONS:
            out.append(f'* Assumption: {a}.')
        if i in costs:
            out.append(f'* Cost: {costs[i]}.')
        out.append(f"* Beyond the tests: {p['why_tests_cant']}\n")
    bugs = ['| bug | property | what it breaks | caught by the check of its property |', '|---|---|---|---|']
    for name in sorted(os.listdir(os.path.join(VERIF, 'seeded'))):
        meta = json.load(open(os.path.join(VERIF, 'seeded', name, 'meta.json'), encoding='utf-8'))
        bugs.append(f"| {name} | {meta['property']} | {meta['what_it_breaks']} | {'no' if name in MISSED else 'yes, after strengthening' if name in STRENGTHENED else 'yes'} |")
    path = os.path.join(VERIF, 'DESIGN.md')
    text = open(path, encoding='utf-8').read()
    a, b = text.index(BUGS) + len(BUGS), text.index(BUGS_END)
    text = text[:a] + '\n\n' + '\n'.join(bugs) + '\n\n' + text[b:]
    a, b = text.index(START) + len(START), text.index(END)
    with open(path, 'w', encoding='utf-8') as f:
        f.write(text[:a] + '\n\n' + '\n'.join(out) + '\n' + text[b:])


main()
