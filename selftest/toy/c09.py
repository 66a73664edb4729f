class Field:
    def __init__(self, H, D):
        self.H = H
        self.D = D

    def visualize_field(self):
        self.H = 2. * self.H
        return self.H

    def visualize_other(self):
        z = self.D
        z[0] = 1.
        return z

    def visualize_good(self):
        z = self.D.copy()
        z[0] = 1.
        return z


def solve(H, disp=False):
    x = H * 2.
    if disp:
        print(x)
        x = x + 1.
    return x


def solve_good(H, disp=False):
    if disp:
        print('start')
        x = 2. * H
    else:
        x = 2. * H
    if disp:
        print(x)
    return x
