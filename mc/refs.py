"""Reference recurrences, written from the published algorithms.

Each generator yields one dictionary of state variables per iteration.  They
use nothing from ModOpt.
"""

import numpy as np

from .common import decided, plain, rounding


class Momentum:
    """The (p, q, r)-lazy / Chambolle-Dossal / restarted momentum sequence."""

    def __init__(self, a_cd=None, p_lazy=1, q_lazy=1, r_lazy=4, restart_strategy=None,
                 xi_restart=None, s_greedy=None, min_beta=None):
        self.a, self.p, self.q, self.r = a_cd, p_lazy, q_lazy, r_lazy
        self.strategy, self.xi, self.s, self.min_beta = (
            restart_strategy, xi_restart, s_greedy, min_beta)
        self.t, self.n = 1.0, 0
        self.limit, self.guard = None, False

    def restart(self, z_old, x_new, x_old):
        if self.strategy is None:
            return False
        value = np.vdot(z_old - x_new, x_new - x_old).real
        flat = plain(z_old, x_new, x_old)
        doubt = rounding([z_old, x_new, x_old], [z_old - x_new, x_new - x_old])
        value = decided(value, flat, doubt)
        hit = value >= 0
        if hit and self.strategy.startswith("adaptive"):
            self.r = self.r * self.xi
            if self.strategy in ("adaptive-ii", "adaptive-2"):
                self.t = 1.0
        if self.strategy == "greedy":
            move = np.sqrt(np.sum(np.abs(x_new - x_old) ** 2))
            if self.limit is None:
                self.limit = self.s * move
            else:
                # the first move may be zero: then the limit is zero too
                more = decided(move - self.limit, not np.any(x_new) and not np.any(x_old),
                               1e3 * np.finfo(x_new.dtype).eps
                               * (np.linalg.norm(x_new) + self.limit))
                self.guard = more >= 0
        return hit

    def beta(self, beta):
        return max(beta * self.xi, self.min_beta) if self.guard else beta

    def lam(self):
        if self.strategy == "greedy":
            return 2.0
        before = self.t
        if self.a is None:
            self.t = (self.p + np.sqrt(self.r * before**2 + self.q)) / 2
        else:
            self.t = (self.n + self.a - 1) / self.a
            self.n += 1
        return 1 + (before - 1) / self.t


def forward_backward(x, grad, prox, beta=1.0, lam=1.0, beta_update=None, lambda_update="fista",
                     **fista):
    """Forward-backward with over-relaxation or momentum (and restarts)."""
    mom = Momentum(**fista) if lambda_update == "fista" else None
    x_old, z_old = x, x
    while True:
        y = z_old - beta * grad(z_old)
        x_new = prox(y, beta)
        z_new = x_old + lam * (x_new - x_old)
        restarted = mom is not None and mom.restart(z_old, x_new, x_old)
        if restarted:
            z_new = x_new
        yield {"x_new": x_new, "z_new": z_new, "prox_in": y, "factor": beta,
               "restarted": restarted}
        x_old, z_old = x_new, z_new
        if mom is not None:
            beta = mom.beta(beta)
            lam = mom.lam()
        else:
            beta = beta_update(beta) if beta_update else beta
            lam = lambda_update(lam) if lambda_update else lam


def gen_forward_backward(x, grad, proxes, weights, gamma=1.0, lam=1.0, gamma_update=None,
                         lambda_update=None):
    """Raguet et al., algorithm 1."""
    zs = [x.copy() for _ in proxes]
    while True:
        g = grad(x)
        ins = []
        for i, prox in enumerate(proxes):
            arg = 2 * x - zs[i] - gamma * g
            ins.append((arg, gamma / weights[i]))
            zs[i] = zs[i] + lam * (prox(arg, gamma / weights[i]) - x)
        x = sum(w * z for w, z in zip(weights, zs))
        yield {"x_new": x, "z_new": np.array(zs), "prox_in": ins}
        gamma = gamma_update(gamma) if gamma_update else gamma
        lam = lambda_update(lam) if lambda_update else lam


def pogm(u, x, y, z, grad, prox, beta=1.0, sigma_bar=1.0):
    """Kim and Fessler, algorithm 3 (proximal OGM with restart)."""
    t, sigma, xi = 1.0, 1.0, 1.0
    g_old = grad(x)
    while True:
        gx = grad(x)
        u_new = x - beta * gx
        t_new = (1 + np.sqrt(1 + 4 * t**2)) / 2
        a = (t - 1) / t_new
        b = sigma * t / t_new
        z = u_new + a * (u_new - u) + b * (u_new - x) - beta * a / xi * (x - z)
        xi = beta * (1 + a + b)
        x_new = prox(z, xi)
        g_new = gx - (x_new - z) / xi
        y_new = x - beta * g_new
        value = np.vdot(-g_new, y_new - y).real
        zero = plain(beta, xi, x, y, z, x_new, gx, g_new, y_new)
        doubt = [x_new / xi, z / xi, gx]
        value = decided(value, zero, rounding(doubt + [y, x], [g_new, y_new - y]))
        if value < 0:
            t_new, sigma = 1.0, 1.0
            event = "restart"
        else:
            other = np.vdot(g_new, g_old).real
            other = decided(other, plain(beta, xi, x, z, x_new, gx, g_new, g_old),
                            rounding(doubt, [g_new, g_old]))
            event = "shrink" if other < 0 else "-"
            if other < 0:
                sigma = sigma * sigma_bar
        yield {"u_new": u_new, "x_new": x_new, "y_new": y_new, "z_new": z, "xi": xi,
               "sigma": sigma, "t": t_new, "prox_in": z, "factor": xi, "event": event}
        t, u, x, y, g_old = t_new, u_new, x_new, y_new, g_new


def condat(x, y, grad, prox, prox_dual, op, adj, rho=0.5, sigma=1.0, tau=1.0, rho_update=None,
           sigma_update=None, tau_update=None):
    """Condat, algorithm 3.1 (dual prox through Moreau's identity)."""
    while True:
        xp_in = x - tau * grad(x) - tau * adj(y)
        xp = prox(xp_in)
        yt = y + sigma * op(2 * xp - x)
        yp = yt - sigma * prox_dual(yt / sigma, 1.0 / sigma)
        x = rho * xp + (1 - rho) * x
        y = rho * yp + (1 - rho) * y
        yield {"x_new": x, "y_new": y, "primal_in": xp_in, "dual_in": yt / sigma,
               "dual_factor": 1.0 / sigma}
        rho = rho_update(rho) if rho_update else rho
        sigma = sigma_update(sigma) if sigma_update else sigma
        tau = tau_update(tau) if tau_update else tau


def descent(kind, x, grad, prox, eta=1.0, eta_update=None, epsilon=1e-6, epoch_size=1, gamma=None,
            beta=None, start=0):
    """The gradient descent family; ``idx`` restarts with every call of iterate."""
    speed = np.ones(x.shape) if kind in ("vanilla", "momentum") else np.zeros(x.shape)
    if kind in ("vanilla", "momentum"):
        epsilon = 0.0
    direction = np.zeros_like(x)
    memory = [np.zeros_like(x) for _ in range(epoch_size)]
    bpow = gpow = 1.0
    idx = start
    while True:
        g = grad(x)
        cycle = idx % epoch_size
        if kind == "momentum":
            direction = beta * direction + g
        elif kind == "adam":
            bpow *= beta
            direction = (beta * direction + (1 - beta) * g) / (1 - bpow)
        elif kind == "saga":
            direction = direction - memory[cycle] + g
            memory[cycle] = g
        else:
            direction = g
        if kind == "ada":
            speed = speed + np.abs(g) ** 2
        elif kind == "rmsprop":
            speed = gamma * speed + (1 - gamma) * np.abs(g) ** 2
        elif kind == "adam":
            gpow *= gamma
            speed = (gamma * speed + (1 - gamma) * np.abs(g) ** 2) / (1 - gpow)
        step = eta / (np.sqrt(speed) + epsilon)
        x = x - step * direction
        prox_in = None
        if cycle == 0:
            if kind == "momentum":
                direction = np.zeros_like(x)
            prox_in = (x, step)
            x = prox(x, step)
        row = {"x_new": x, "dir_grad": direction, "speed_grad": speed, "prox_in": prox_in}
        again = yield row
        eta = eta_update(eta, idx) if eta_update else eta
        idx = 0 if again == "restart" else idx + 1


def admm(u, v, mu, a_op, b_op, b, opt_h, opt_g, documented):
    """ADMM; ``documented`` selects the multiplier (True) or the known deviation."""
    while True:
        lead = mu if documented else u
        call_h = (u, b_op(v) + lead - b)
        u_new = opt_h(*call_h)
        au = a_op(u_new)
        call_g = (v, au + lead - b)
        v_new = opt_g(*call_g)
        mu = mu + au + b_op(v_new) - b
        yield {"x_new": u_new, "v_new": v_new, "mu": mu, "calls": (call_h, call_g)}
        u, v = u_new, v_new


def fast_admm(u, v, mu, a_op, b_op, b, opt_h, opt_g, documented, tau=1.0, eta=0.999, alpha=1.0):
    """Goldstein et al., algorithm 8, in scaled form."""
    v_hat, mu_hat, c_old = v, mu, np.inf
    while True:
        lead = mu_hat if documented else u
        call_h = (u, b_op(v_hat) + lead - b)
        u_new = opt_h(*call_h)
        au = a_op(u_new)
        call_g = (v_hat, au + lead - b)
        v_new = opt_g(*call_g)
        mu_new = mu_hat + au + b_op(v_new) - b
        c = tau * (np.linalg.norm(mu_new - mu_hat) ** 2
                   + np.linalg.norm(b_op(v_new - v_hat)) ** 2)
        if np.isfinite(c_old):
            size = np.linalg.norm(mu_new) + np.linalg.norm(mu_hat) + np.linalg.norm(b_op(v_new))
            tie = 1e-12 * (np.sqrt(c) + np.sqrt(c_old)) * size + 1e-24 * size**2
            gap = decided(c - eta * c_old, c == 0 and c_old == 0, tie)
        else:
            gap = -1.0
        if gap < 0:
            alpha_new = (1 + np.sqrt(1 + 4 * alpha**2)) / 2
            beta = (alpha - 1) / alpha_new
            v_hat = v_new + beta * (v_new - v)
            mu_hat = mu_new + beta * (mu_new - mu)
            event = "fast"
        else:
            alpha_new = 1.0
            v_hat, mu_hat = v, mu
            c = c_old / eta
            event = "restart"
        yield {"x_new": u_new, "v_new": v_new, "mu": mu_new, "calls": (call_h, call_g),
               "event": event}
        u, v, mu, alpha, c_old = u_new, v_new, mu_new, alpha_new, c


# --- convolution, straight from the definition -------------------------------


def conv_same(x, k):
    """Linear convolution, central part of the size of ``x``."""
    x, k = np.asarray(x), np.asarray(k)
    out = np.zeros(x.shape, dtype=np.result_type(x, k, float))
    centre = [(s - 1) // 2 for s in k.shape]
    for idx in np.ndindex(*k.shape):
        for pos in np.ndindex(*x.shape):
            src = tuple(p - i + c for p, i, c in zip(pos, idx, centre))
            if all(0 <= s < n for s, n in zip(src, x.shape)):
                out[pos] += k[idx] * x[src]
    return out


def conv_wrap(x, k):
    """Circular convolution, kernel centred."""
    x, k = np.asarray(x), np.asarray(k)
    out = np.zeros(x.shape, dtype=np.result_type(x, k, float))
    centre = [s // 2 for s in k.shape]
    for idx in np.ndindex(*k.shape):
        shift = [i - c for i, c in zip(idx, centre)]
        out = out + k[idx] * np.roll(x, shift, axis=tuple(range(x.ndim)))
    return out
