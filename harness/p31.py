import contextlib
import io

from engine.harness import harness

FN = ["cuda.configure_device", "cuda.get_selected_device"]
NAMES = ("auto", "gpu", "cuda", "cpu")


class Text(str):
    """Any text: which of the constants it is compared with it equals is decided when the code asks.

    lower() and strip() give the canonical spelling; before both were applied the text may be
    spelled differently from the constant it stands for.
    """

    def __new__(cls, h, name, state=0, root=None):
        return super().__new__(cls, "<%s>" % name)

    def __init__(self, h, name, state=0, root=None):
        self.h, self.name, self.state = h, name, state
        self.root = root or self
        if root is None:
            self.equal = None
            self.differs = set()
            self.spelled = None

    def is_(self, c):
        r = self.root
        if r.equal is not None:
            return r.equal == c
        if c in r.differs or c != c.lower().strip():
            return False
        if self.h.flag("%s==%s" % (self.name, c)):
            r.equal = c
            return True
        r.differs.add(c)
        return False

    def plain(self):
        r = self.root
        if r.spelled is None:
            r.spelled = self.h.flag("%s odd spelling" % self.name)
        return not r.spelled

    def __eq__(self, o):
        if isinstance(o, Text):
            return o.root is self.root
        if not isinstance(o, str):
            return False
        return self.is_(o) and (self.state == 3 or self.plain())

    def __ne__(self, o):
        return not self == o

    def concrete(self):
        for c in NAMES:
            if self.is_(c):
                return c if self.state == 3 or self.plain() else spell(c)
        return "gpux" if self.state == 3 or self.plain() else spell("gpux")

    def __hash__(self):
        return hash(self.concrete())

    def lower(self):
        return Text(self.h, self.name, self.state | 1, self.root)

    casefold = lower

    def strip(self, *a):
        return Text(self.h, self.name, self.state | 2, self.root)

    def __str__(self):
        return self

    def __format__(self, spec):
        return "<%s>" % self.name


def _other(name):
    def f(self, *a, **k):
        return getattr(self.concrete(), name)(*a, **k)

    return f


for _n in ("upper", "startswith", "endswith", "split", "replace", "title", "capitalize", "find", "lstrip", "rstrip", "__contains__", "__len__", "__getitem__", "__iter__", "__add__"):
    setattr(Text, _n, _other(_n))


def spell(c):
    return " \t%s%s \n" % (c[:1].upper(), c[1:])


def request(h, name):
    """An arbitrary text."""
    if not h.concrete:
        return Text(h, name)
    asked = list(NAMES) + sorted(k[len(name) + 2 :] for k in h.env if k.startswith(name + "=="))
    c = next((c for c in asked if h.flag("%s==%s" % (name, c))), "gpux")
    return spell(c) if h.flag("%s odd spelling" % name) else c


@harness("P31", functions=FN, bounds="every history of 3 calls (4 in the thorough tier); each request is None or an arbitrary text (any comparison with a constant may hold), with any CUDA availability at each call; verbose on or off", stubs=["torch.cuda.is_available and torch.set_default_device / get_default_device are a model of torch's device state"], time=200, max_paths=20000)
def history(h):
    """Selected, returned and default device follow the last valid request after any history."""
    import torch
    from xrd_simulator import cuda

    st = {"default": None, "available": None, "n": 0}

    def available():
        if st["available"] is None:
            st["available"] = h.flag("available%d" % st["n"])
        return st["available"]

    def set_default(d):
        st["default"] = str(d)

    h.patch(cuda, "_device", cuda._device)
    h.patch(torch.cuda, "is_available", available)
    h.patch(torch.cuda, "device_count", lambda: int(available()))
    h.patch(torch, "set_default_device", set_default)
    if hasattr(torch, "get_default_device"):
        h.patch(torch, "get_default_device", lambda: torch.device(st["default"]))
    verbose = h.flag("verbose")
    with contextlib.redirect_stdout(io.StringIO()):
        h.check(cuda.configure_device("cpu") == "cpu", "start on the CPU")
        selected = "cpu"
        for i in range(4 if h.tier == "thorough" else 3):
            st["n"], st["available"] = i, None
            r = None if h.flag("none%d" % i) else request(h, "request%d" % i)
            try:
                got = cuda.configure_device(r, verbose=verbose) if r is not None or h.flag("explicit%d" % i) else cuda.configure_device(verbose=verbose)
            except ValueError:
                got = "refused"
            if r is None:
                want = "cuda" if available() else "cpu"
            else:
                kind = r.strip().lower()
                if kind == "auto" or kind == "gpu" or kind == "cuda":
                    want = "cuda" if available() else "cpu"
                elif kind == "cpu":
                    want = "cpu"
                else:
                    want = "refused"
            h.check(str(got) == want, "returned device of call %d" % i)
            selected = selected if want == "refused" else want
            h.check(cuda.get_selected_device() == selected, "selected device after call %d" % i)
            h.check(st["default"] == selected, "default device after call %d" % i)
