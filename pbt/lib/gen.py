"""Shared Hypothesis strategies (all produce JSON-able values)."""
from hypothesis import strategies as st

seeds = st.integers(0, 2**31 - 1)


def fl(lo, hi, places = 3):
    """Float on a decimal grid between lo and hi."""
    f = 10**places
    return st.integers(int(round(lo * f)), int(round(hi * f))).map(lambda n: n / f)


@st.composite
def boxes(draw, lo = 0, hi = 8, max_side = 5):
    b0 = [draw(st.integers(lo, hi)) for _ in range(3)]
    return [b0, [v + draw(st.integers(0, max_side - 1)) for v in b0]]


def opt(s):
    return st.none() | s


names = st.text('abcXYZ 012_-é', min_size = 1, max_size = 12).map(lambda s: s.strip() or 'n')
