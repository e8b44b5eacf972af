"""In-place snapshot / restore / canonical form of live filter objects, and the explicit-state explorer.

A snapshot captures every mutable object reachable from the filter through instance attributes, lists, dicts and arrays;
compiled functions are kept by reference so that no recompilation is needed.  Restoring writes the captured contents back
into the very same objects, so object identities (e.g. a parameter dict shared by a constraint and a filter) survive.
"""
import collections
import itertools

import numpy as np

MODULES = ("run_time_assurance", "mc.")


def is_known(o):
    """instance of a class of the library (or of the toy systems built on it) that carries data"""
    t = type(o)
    return isinstance(getattr(o, "__dict__", None), dict) and any(c.__module__.startswith(MODULES) for c in t.__mro__) and not isinstance(o, type)


def snapshot(root):
    out, seen, todo = [], set(), [root]
    while todo:
        o = todo.pop()
        if id(o) in seen:
            continue
        seen.add(id(o))
        if is_known(o):
            d = dict(o.__dict__)
            out.append(("obj", o, d))
            todo.extend(d.values())
        elif isinstance(o, dict):
            items = list(o.items())
            out.append(("dict", o, items))
            todo.extend(v for _, v in items)
        elif isinstance(o, list):
            out.append(("list", o, list(o)))
            todo.extend(o)
        elif isinstance(o, tuple):
            todo.extend(o)
        elif isinstance(o, np.ndarray) and o.flags.writeable:
            out.append(("arr", o, o.copy()))
        elif isinstance(o, set):
            out.append(("set", o, set(o)))
    return out


def restore(snap):
    for kind, o, c in snap:
        if kind == "obj":
            o.__dict__.clear()
            o.__dict__.update(c)
        elif kind == "dict":
            o.clear()
            o.update(c)
        elif kind == "list":
            o[:] = c
        elif kind == "arr":
            o[...] = c
        else:
            o.clear()
            o.update(c)


def canon(o, seen=None):
    """hashable rendering of all data held by the filter (functions are left out)"""
    seen = {} if seen is None else seen
    if o is None or isinstance(o, (bool, int, float, str, bytes, np.generic)):
        return o if not isinstance(o, np.generic) else o.item()
    if id(o) in seen:
        return ("ref", seen[id(o)])
    if isinstance(o, np.ndarray) or type(o).__module__.startswith("jax"):
        try:
            a = np.asarray(o)
        except Exception:  # noqa
            return "?"
        if a.dtype == object:
            return "?"
        return ("a", a.shape, a.dtype.str, a.tobytes())
    if is_known(o):
        seen[id(o)] = len(seen)
        return (type(o).__name__, tuple((k, canon(v, seen)) for k, v in sorted(o.__dict__.items()) if not callable(v) or is_known(v)))
    if isinstance(o, dict):
        seen[id(o)] = len(seen)
        return ("d", tuple((str(k), canon(v, seen)) for k, v in o.items() if not callable(v) or is_known(v)))
    if isinstance(o, (list, tuple)):
        return ("l", tuple(canon(v, seen) for v in o if not callable(v) or is_known(v)))
    return type(o).__name__


def explore(rep, impl, model0, ops, depth, replays=200, label="", flat=0):
    """Breadth-first search over all operation sequences up to `depth`.

    ops: list of (name, run, spec) where run(impl) executes the operation on the real object and returns an observation and
    spec(model) -> (model', judge) with judge(observation) -> None or a message.  spec may return None: not enabled.
    States are merged when the complete data of the real object and the model state coincide.
    Afterwards the longest histories are replayed on the live object from the initial state without any snapshot in between,
    and, with flat > 0, so is every sequence of `flat` operations without merging (stateless enumeration).
    """
    s0 = snapshot(impl)
    frontier = collections.deque([(s0, model0, ())])
    seen = {(canon(impl), model0)}
    rep.count_states()
    longest = []
    while frontier:
        s, m, hist = frontier.popleft()
        if len(hist) >= depth:
            longest.append(hist)
            continue
        for name, run, spec in ops:
            nxt = spec(m)
            if nxt is None:
                continue
            restore(s)
            m2, judge = nxt
            try:
                obs = run(impl)
            except Exception as e:  # noqa
                restore(s0)
                rep.violation(f"{label}: {name} raised {type(e).__name__}: {str(e)[:300]}", history=list(hist) + [name])
                continue
            rep.step()
            msg = judge(obs)
            if msg:
                restore(s0)
                rep.violation(f"{label}: {msg}", history=list(hist) + [name])
                continue
            k = (canon(impl), m2)
            h2 = hist + (name,)
            if k in seen:
                continue
            seen.add(k)
            rep.count_states()
            frontier.append((snapshot(impl), m2, h2))
    restore(s0)
    # conformance: uninterrupted replays
    table = {n: (r, sp) for n, r, sp in ops}
    longest.sort()
    if len(longest) > replays and replays:
        stride = len(longest) / replays
        longest = [longest[int(i * stride)] for i in range(replays)]
    elif not replays:
        longest = []
    for hist in longest:
        restore(s0)
        m = model0
        for i, name in enumerate(hist):
            run, spec = table[name]
            m, judge = spec(m)
            obs = run(impl)
            rep.step()
            msg = judge(obs)
            if msg:
                rep.violation(f"{label} (uninterrupted replay): {msg}", history=list(hist[:i + 1]))
                break
        rep.trace()
    restore(s0)
    if longest:
        rep.sample({"label": label, "history": list(longest[0])})
    if flat:
        for seq in itertools.product(ops, repeat=flat):
            restore(s0)
            m, done = model0, []
            for name, run, spec in seq:
                nxt = spec(m)
                if nxt is None:
                    break
                m, judge = nxt
                done.append(name)
                obs = run(impl)
                rep.step()
                msg = judge(obs)
                if msg:
                    rep.violation(f"{label} (stateless): {msg}", history=list(done))
                    break
            else:
                rep.trace()
        restore(s0)
