"""Reference nonlinear tracking and its models (analysed, never executed)."""
import numpy as np
import jax
import specs.lqt as lqt


def expansion(f, Fx, Fu, x, u):
    """First-order expansion of f at (x, u): F, c, L."""
    A, B = Fx(x, u), Fu(x, u)
    return A, f(x, u) - A @ x - B @ u, B


def linearize(f, Fx, Fu, us, xs, T):
    e = [expansion(f, Fx, Fu, xs[k], us[k]) for k in range(T)]
    return tuple([y[i] for y in e] for i in range(3))


def linearize_arrays(f, Fx, Fu, us, xs, T):
    return tuple(np.array(y) for y in linearize(f, Fx, Fu, us, xs, T))


def iterate(q, x0, method):
    """q: the linearised problem."""
    if method == 0:
        Ks, ds, Ss, vs = lqt.extract(q, lqt.bwd_scan(lqt.bwd_elements(q)))
        return lqt.fwd_extract(x0, Ks, ds, lqt.fwd_scan(lqt.fwd_elements(q, x0, Ks, ds)))
    if method == 1:
        Ks, ds, Ss, vs = lqt.extract(q, lqt.bwd_scan(lqt.bwd_elements(q)))
        return lqt.fb_extract(Ks, ds, Ss, vs, lqt.fwdbwd_scan(lqt.fwdbwd_elements(q, x0)))
    Ks, ds, Ss, vs = lqt.backward(q)
    return lqt.forward(q, x0, Ks, ds)


def simulate(f, x0, us, T):
    xs = [x0]
    x = x0
    for k in range(T):
        x = f(x, us[k])
        xs.append(x)
    return xs


def cost(q, f, x0, us, T):
    return lqt.cost(q, [us[k] for k in range(T)], simulate(f, x0, us, T))


def arr(xs):
    return np.array(xs)


def car(x, u, dt):
    """Position, heading and speed; acceleration and turn rate."""
    return np.array([x[0] + dt * x[3] * np.cos(x[2]), x[1] + dt * x[3] * np.sin(x[2]),
                     x[2] + dt * u[1], x[3] + dt * u[0]])


def cars(xs, us, dt):
    return np.array([car(xs[k], us[k], dt) for k in range(xs.shape[0])])


def wrt_state(f, x, u):
    return jax.jacfwd(lambda z: f(z, u))(x)


def wrt_control(f, x, u):
    return jax.jacfwd(lambda z: f(x, z))(u)


def batch_wrt_state(xs, us, dt):
    return np.array([jax.jacfwd(lambda z: car(z, us[k], dt))(xs[k]) for k in range(xs.shape[0])])


def batch_wrt_control(xs, us, dt):
    return np.array([jax.jacfwd(lambda z: car(xs[k], z, dt))(us[k]) for k in range(xs.shape[0])])


def first(xs):
    return xs[0]


def arrs(us, xs):
    return np.array(us), np.array(xs)
