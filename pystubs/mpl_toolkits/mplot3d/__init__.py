from matplotlib.pyplot import _Axes as Axes3D


class axes3d:
    Axes3D = Axes3D
