"""Classical fourth order Runge-Kutta step."""


def combine(x, h, k1, k2, k3, k4):
    return x + h * (k1 + 2 * k2 + 2 * k3 + k4) / 6


def x_only(f, h, x):
    k1 = f(x)
    k2 = f(x + h * k1 / 2)
    k3 = f(x + h * k2 / 2)
    k4 = f(x + h * k3)
    return combine(x, h, k1, k2, k3, k4)


def with_time(f, h, x, t):
    k1 = f(x, t)
    k2 = f(x + h * k1 / 2, t + h / 2)
    k3 = f(x + h * k2 / 2, t + h / 2)
    k4 = f(x + h * k3, t + h)
    return combine(x, h, k1, k2, k3, k4)


def with_param(f, h, x, p):
    k1 = f(x, p)
    k2 = f(x + h * k1 / 2, p)
    k3 = f(x + h * k2 / 2, p)
    k4 = f(x + h * k3, p)
    return combine(x, h, k1, k2, k3, k4)


def with_both(f, h, x, t, p):
    k1 = f(x, t, p)
    k2 = f(x + h * k1 / 2, t + h / 2, p)
    k3 = f(x + h * k2 / 2, t + h / 2, p)
    k4 = f(x + h * k3, t + h, p)
    return combine(x, h, k1, k2, k3, k4)
