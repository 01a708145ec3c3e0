"""Shared harness helpers (real controllers on a stand-in process)."""
import os
import tempfile

_CFG = []


def cfg_dir():
    if not _CFG:
        _CFG.append(tempfile.mkdtemp(prefix="pyvc_cfg_"))
        import atexit
        import shutil
        atexit.register(lambda: shutil.rmtree(_CFG[0], ignore_errors=True))
    return _CFG[0]


class FakeSpawned:
    def __init__(self, f, a, k):
        try:
            self.value = f(*a, **k)
        except Exception as e:
            self.value = e

    def wait(self, *a, **k):
        return None

    def ready(self):
        return True

    def get(self, *a, **k):
        if isinstance(self.value, Exception):
            raise self.value
        return self.value


class FakeProcess:
    """Runs spawned functions at once, in the caller's thread"""
    name = "proc"

    def __init__(self):
        self.controllers = {}

    def spawn(self, f, *a, **k):
        return FakeSpawned(f, a, k)

    def get_controller(self, mri):
        return self.controllers[mri]

    mri_list = property(lambda s: list(s.controllers))


def controller(kind, process=None, mri="mri", parts=()):
    from malcolm.modules import builtin, scanning
    if kind == "basic":
        c = builtin.controllers.BasicController(mri)
    elif kind == "stateful":
        c = builtin.controllers.StatefulController(mri)
    elif kind == "manager":
        c = builtin.controllers.ManagerController(mri, cfg_dir())
    else:
        c = scanning.controllers.RunnableController(mri, cfg_dir())
    for p in parts:
        c.add_part(p)
    process = process or FakeProcess()
    process.controllers[mri] = c
    c.setup(process)
    return c


class FakeQueue:
    """Nothing else runs while we wait: an empty queue times out at once"""

    def __init__(self):
        self.q = []

    def put(self, x):
        self.q.append(x)

    def get(self, timeout=None):
        if not self.q:
            if timeout is None:
                # what the aborting thread tells us in the end
                return False
            from malcolm.core import TimeoutError
            raise TimeoutError("timed out")
        return self.q.pop(0)


def use_fake_queue(vc):
    import malcolm.modules.scanning.controllers.runnablecontroller as m
    vc.stub(m, "Queue", FakeQueue)


class HookRegistrar:
    """What a part tells its controller: the functions of its hooks"""

    def __init__(self, part):
        self.part, self.infos = part, []

    def hook(self, hooks, func, args_gen=None):
        self.part.register_hooked(hooks, func, args_gen)

    def report(self, info):
        self.infos.append(info)

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        return lambda *a, **k: None


def fire(part, hook, **kwargs):
    """Run the function that the part has for this hook, if any, with those
    of the arguments that it takes, as the controller does"""
    if getattr(part, "hooked", None) is None:
        reg = getattr(part, "registrar", None)
        mine = HookRegistrar(part)
        part.setup(mine)
        part.registrar = reg if reg is not None else mine
    if hook not in part.hooked:
        return None
    func, args_gen = part.hooked[hook]
    return func(**{k: kwargs[k] for k in args_gen(list(kwargs))})


class Hooks:
    """A part as its controller runs it: by its hooks, with the arguments
    that all of them can have"""

    def __init__(self, part, context, **always):
        import malcolm.modules.scanning.hooks as h
        self.h, self.part = h, part
        self.always = dict(dict(
            context=context, part_info={}, generator=None, axesToMove=[],
            breakpoints=None, fileDir="/tmp", formatName="det",
            fileTemplate="%s.h5"), **always)

    def fire(self, hook, done, steps, kw):
        args = dict(self.always, completed_steps=done, steps_to_do=steps)
        args.update(kw)
        return fire(self.part, hook, **args)

    def validate(self, **kw):
        return fire(self.part, self.h.ValidateHook, **dict(self.always, **kw))

    def configure(self, done, steps, **kw):
        return self.fire(self.h.ConfigureHook, done, steps, kw)

    def seek(self, done, steps, **kw):
        return self.fire(self.h.SeekHook, done, steps, kw)

    def armed(self, done, steps, **kw):
        return self.fire(self.h.PostRunArmedHook, done, steps, kw)

    def run(self):
        return fire(self.part, self.h.RunHook,
                    context=self.always["context"])


def every_kind(cls):
    """the same, but caught by handlers of any common kind of exception"""
    class EveryKind(cls, KeyError, IndexError, ValueError, TypeError,
                    AssertionError, RuntimeError):
        __str__ = Exception.__str__
    return EveryKind


class FakeLookup:
    """A mapping whose keys are any numbers"""

    def __init__(self, vc, items):
        self.vc, self.items_ = vc, list(items)

    def find(self, k):
        for i, (x, _) in enumerate(self.items_):
            if self.vc.fork(x == k):
                return i

    def __setitem__(self, k, v):
        i = self.find(k)
        if i is not None:
            del self.items_[i]
        self.items_.append((k, v))

    def __getitem__(self, k):
        i = self.find(k)
        if i is None:
            raise KeyError(k)
        return self.items_[i][1]

    def __delitem__(self, k):
        self.pop(k)

    def pop(self, k, *default):
        i = self.find(k)
        if i is None:
            if default:
                return default[0]
            raise KeyError(k)
        return self.items_.pop(i)[1]

    def get(self, k, default=None):
        i = self.find(k)
        return default if i is None else self.items_[i][1]

    def __contains__(self, k):
        return self.find(k) is not None

    def __iter__(self):
        return iter([k for k, _ in self.items_])

    def __len__(self):
        return len(self.items_)

    def values(self):
        return [v for _, v in self.items_]

    def items(self):
        return list(self.items_)
