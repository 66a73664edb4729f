import matplotlib.pyplot as plt


def evaluate(time):
    from matplotlib import cm
    return cm, time


def loads_by_name(time):
    import importlib
    return importlib.import_module('matplotlib'), time


def configures(time):
    plt.rcParams['font.size'] = 3
    return time


def clusters(time):
    from scipy.cluster.hierarchy import dendrogram
    return dendrogram(time)


def visualize_it(time):
    from matplotlib import cm
    return cm, time
