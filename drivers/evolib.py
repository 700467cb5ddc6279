"""Stand-ins for the environment and the CA, so that evolution runs fast and
its fitness landscape is known; agents are the real ParamsAgent / CPPN unless said otherwise."""
from harness import *
import hashlib
import yuca.cmaes as cmaes
from yuca.params_agent import ParamsAgent

LOG = []            # env.step calls: what was evaluated


def vid(table, v):
    """id of an exact parameter vector"""
    b = np.asarray(v, dtype=np.float64).ravel().tobytes()
    return table.setdefault(b, len(table) + 1)


def fingerprint():
    """small number identifying the state of both generators"""
    h = hashlib.sha1()
    st = np.random.get_state()
    h.update(st[1].tobytes()); h.update(str(st[2]).encode())
    h.update(bytes(torch.get_rng_state().tolist()))
    return int(h.hexdigest()[:7], 16)


class StubCA:
    def __init__(self, **kwargs):
        self.external_channels = kwargs.get("external_channels", 1)
        self.my_device = "cpu"
        self.kernel_radius = 3
        self.params = np.array(kwargs.get("start", [0.5, 0.25, -0.5]), dtype=np.float64)
        self.saved = []

    def get_params(self): return 1.0 * self.params
    def set_params(self, p): self.params = np.array(p, dtype=np.float64).ravel()
    def make_config(self): return {"params": 1.0 * self.params}
    def save_config(self, path, *a, **k): self.saved.append((path, 1.0 * self.params))
    def no_grad(self): pass
    def eval(self): pass
    def reset(self): pass
    def to_device(self, d): self.my_device = d
    def get_frame(self, g, mode=0): return 0.0 * g
    def __call__(self, g): return 0.0 * g


class StubEnv:
    """reward = landscape(action, noise); records every step"""
    landscape = None

    def __init__(self, **kwargs):
        self.ca = StubCA(**kwargs)
        self.ca_steps = kwargs.get("ca_steps", 8)
        self.rewards, self.fps, self.actions, self.budgets = [], [], [], []
        self.rule_env = kwargs.get("rule_env", True)

    def reset(self): self.fps.append(fingerprint())
    def eval(self): pass
    def to_device(self, d): pass

    def step(self, action):
        a = action.detach().numpy().ravel() if isinstance(action, torch.Tensor) else np.asarray(action).ravel()
        if self.rule_env:
            self.ca.set_params(action)
        r = type(self).landscape(a, self)
        self.rewards.append(r); self.actions.append(a); self.budgets.append(int(self.ca_steps))
        return 0, torch.tensor(r), False, {"active_grid": torch.tensor(0.5)}


SHOWN = []               # (pattern's first cells, parameters of the automaton) of every picture asked for


def silent_gif(grid=None, ca=None, *a, **k):
    if grid is None or ca is None:
        return None
    p = ca.get_params()
    SHOWN.append((np.array(grid.detach().cpu().numpy(), dtype=np.float64).ravel()[:8], np.array(p, dtype=np.float64).ravel()))
    return None


cmaes.save_fig_sequence = silent_gif
