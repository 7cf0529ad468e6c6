# Every random decision of the simulator comes from one of these, which is
# seeded from (VERIF_SEED, property, case number).
import hashlib
from java.util import Random as _JRandom


class Rng(object):
    def __init__(self, *key):
        digest = hashlib.md5('|'.join(str(k) for k in key)).hexdigest()
        n = int(digest[:15], 16)
        self._r = _JRandom(n)

    def below(self, n):
        return self._r.nextInt(n) if n > 1 else 0

    def between(self, a, b):
        return a + self.below(b - a + 1)

    def chance(self, p):
        return self._r.nextDouble() < p

    def pick(self, seq):
        return seq[self.below(len(seq))]

    def weighted(self, pairs):
        # [(weight, value)]
        total = sum(w for w, _ in pairs)
        x = self.below(total)
        for w, v in pairs:
            if x < w:
                return v
            x -= w

    def sample(self, seq, k):
        seq = list(seq)
        out = []
        while seq and k > 0:
            out.append(seq.pop(self.below(len(seq))))
            k -= 1
        return out

    def shuffled(self, seq):
        return self.sample(seq, len(seq))

    def text(self, alphabet, lo, hi):
        return ''.join([alphabet[self.below(len(alphabet))] for _ in xrange(self.between(lo, hi))])

    def small(self, hi):
        # 0..hi, small values more likely
        return self.below(self.below(hi + 1) + 1)
