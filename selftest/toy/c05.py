"""Violations of C05 (and look-alikes that are none)."""


def response(alpha, M=11, approximation=False, N=10):
    if approximation:
        return alpha * N
    return alpha + M


def wrapper_drops(alpha, M):
    return response(alpha)


def wrapper_changes(alpha, M):
    return response(alpha, M=M + 1)


def wrapper_good(alpha, M=None):
    if M is None:
        M = 11
    return response(alpha, M=int(M))


def wrapper_bad_call(alpha, M):
    return response(alpha, M=M, order=3)


def ignores(alpha, approximation, N):
    if approximation:
        return 2 * alpha
    return alpha * N
