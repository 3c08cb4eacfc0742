"""Stand-in for OpenFst's Python module: reads a plain text acceptor/transducer."""


class Weight(object):
    def __init__(self, text):
        self._text = text

    def __float__(self):
        return float(self._text)

    def __str__(self):
        return self._text

    def to_string(self):
        return self._text.encode()

    def __eq__(self, other):
        return float(self) == float(str(other))

    def __ne__(self, other):
        return not self == other

    __hash__ = None


class Arc(object):
    def __init__(self, ilabel, olabel, weight, nextstate):
        self.ilabel = ilabel
        self.olabel = olabel
        self.weight = weight
        self.nextstate = nextstate


class Fst(object):
    def __init__(self):
        self._start = -1
        self._final = []
        self._arcs = []

    @classmethod
    def read(cls, filename):
        f = cls()
        with open(filename) as fd:
            head = fd.readline().split()
            if len(head) != 3 or head[0] != 'fst':
                raise IOError('Read failed: {}'.format(filename))
            f._start = int(head[2])
            for _ in range(int(head[1])):
                line = fd.readline().split()
                if len(line) != 3 or line[0] != 'state':
                    raise IOError('Read failed: {}'.format(filename))
                f._final.append(Weight(line[1]))
                arcs = []
                for _ in range(int(line[2])):
                    a = fd.readline().split()
                    if len(a) != 5 or a[4] != ';':
                        raise IOError('Read failed: {}'.format(filename))
                    arcs.append(Arc(int(a[1]), int(a[2]), Weight(a[3]), int(a[0])))
                f._arcs.append(arcs)
            if fd.readline() != 'end\n':
                raise IOError('Read failed: {}'.format(filename))
        return f

    def start(self):
        return self._start

    def states(self):
        return iter(range(len(self._final)))

    def num_states(self):
        return len(self._final)

    def final(self, state):
        return self._final[state]

    def num_arcs(self, state):
        return len(self._arcs[state])

    def arcs(self, state):
        return iter(self._arcs[state])

    def fst_type(self):
        return 'vector'

    def arc_type(self):
        return 'standard'
