"""Sizes at which limits usually lie: everything around the powers of two and of ten, and the limits of Annex C of ISO 32000-1."""


def sizes(limit, least=1):
    marks = {2 ** k for k in range(3, 31)} | {10 ** k for k in range(1, 9)} | {3 * 2 ** k for k in range(3, 20)} | {28, 50, 500, 5000, 127, 8191, 32767, 65535}
    return sorted({n + d for n in marks for d in (-1, 0, 1) if least <= n + d <= limit})
