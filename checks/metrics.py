"""Reference definitions of the similarity scores (on plain strings), independent of the implementation."""

from itertools import combinations


def lcs(s, t):
    for k in range(min(len(s), len(t)), 0, -1):
        for idx in combinations(range(len(s)), k):
            it = iter(t)
            if all(s[i] in it for i in idx):
                return k
    return 0


def prefix(s, t):
    n = 0
    while n < min(len(s), len(t)) and s[n] == t[n]:
        n += 1
    return n


def ngram(size, s, t, weighted=False, penalty=None):
    """Sum over lengths up to size of occurring substrings; stops at the first length with less than two (unweighted)."""
    if not t:
        return 0
    total = 0
    for k in range(1, size + 1):
        subs = [(i, s[i:i + k]) for i in range(len(s) - k + 1)]
        found = sum(1 for _, x in subs if x in t)
        if weighted:
            for i, x in subs:
                if x not in t:
                    found -= 2 if i == 0 or i + k == len(s) else 1
        total += found
        if found < 2 and not weighted:
            break
    if penalty == 'longer':
        total -= max(0, len(t) - len(s) - 2)
    elif penalty == 'any':
        total -= max(0, abs(len(t) - len(s)) - 2)
    return total


def root_score(word, stem):
    return ngram(3, word, stem.lower(), penalty='longer') + prefix(word, stem.lower())


def rough(word, form):
    return ngram(len(word), word, form, penalty='any') + prefix(word, form)


def threshold(word):
    total = 0
    for start in (1, 2, 3):
        mangled = ''.join('*' if i >= start and (i - start) % 4 == 0 else c for i, c in enumerate(word))
        total += ngram(len(word), word, mangled, penalty='any')
    return total // 3 - 1


def precise(word, form, factor, base, phonetic):
    """Returns (score, questionable)."""
    common = lcs(word, form)
    if len(word) == len(form) == common:
        return base + 2000
    score = 2 * common - abs(len(word) - len(form)) + prefix(word, form)
    if any(a == b for a, b in zip(word, form)):
        score += 1
    score += ngram(4, word, form, penalty='any')
    pairs = ngram(2, word, form, weighted=True, penalty='any') + ngram(2, form, word, weighted=True, penalty='any')
    score += pairs
    limit = (len(form) if phonetic else len(word) + len(form)) * factor
    if pairs < limit:
        score -= 1000
    return score


def allowed_order(got, groups, earlier):
    """
    Whether `got` is the list of `groups` (lists of texts with equal rank, best first) in some order within
    each group, leaving out every text that contains an earlier one (letter case aside).
    """
    got = list(got)
    seen = [e.lower() for e in earlier]
    pos = 0
    for group in groups:
        left = set(group)
        while pos < len(got) and got[pos] in left:
            if any(e in got[pos].lower() for e in seen):
                return False
            seen.append(got[pos].lower())
            left.discard(got[pos])
            pos += 1
        if not all(any(e in x.lower() for e in seen) for x in left):
            return False
    return pos == len(got)
