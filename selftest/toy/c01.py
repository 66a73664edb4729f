"""Examples every run of the C01 rules has to flag."""


class Borehole:
    def __init__(self, H, D):
        self.H = float(H)
        self.D = float(D)


def sorts_argument(time):
    time.sort()
    return time[0]


def scales_view(time):
    t = time[1:]
    t *= 2.
    return t


def moves_borehole(borehole1):
    borehole1.H = 3.
    return borehole1


def edits_options(options):
    options['disp'] = False
    return options
