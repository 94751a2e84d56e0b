"""Runs the plot script of the repository without a screen.

pandas and pyvista are not installed: the parts of pandas the script needs are
stood in for by the few classes below, and pyvista by recorders.  Serves one
request per line, `<path of the output> <file|stdin>`, and answers with what
was handed to the plotter, as one line of JSON.
"""
import contextlib, io, json, os, sys, traceback, types
from unittest import mock
import numpy as np


class Unsupported(Exception):
    pass


class Missing:
    """What the stand-in lacks is told apart from what the script gets wrong."""

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported(f"{type(self).__name__}.{name}")


class Index(Missing):
    def __init__(self, rows, names=None):
        self.rows, self.names = list(rows), list(names) if names else None

    def __len__(self):
        return len(self.rows)

    def __iter__(self):
        return iter(self.rows)

    def __getitem__(self, k):
        return self.rows[k]

    def get_level_values(self, n):
        n = self.names.index(n) if n in self.names else n
        return Index([r[n] for r in self.rows])

    @property
    def nlevels(self):
        return len(self.rows[0]) if self.rows and isinstance(self.rows[0], tuple) else 1

    def duplicated(self, keep="first"):
        if keep != "first":
            raise Unsupported("duplicated")
        seen = set()
        return np.array([r in seen or seen.add(r) is not None for r in self.rows], dtype=bool)

    def droplevel(self, n):
        n = self.names.index(n) if n in (self.names or []) else n
        rest = [i for i in range(self.nlevels) if i != n]
        if len(rest) == 1:
            return Index([r[rest[0]] for r in self.rows])
        return Index([tuple(r[i] for i in rest) for r in self.rows], [self.names[i] for i in rest] if self.names else None)

    def to_numpy(self, dtype=None):
        return np.array(self.rows, dtype=object if dtype is None else dtype)

    def astype(self, t):
        return Index([t(r) for r in self.rows], self.names)

    def map(self, f):
        return Index([f(r) for r in self.rows])

    def __array__(self, dtype=None, copy=None):
        return np.array(self.rows, dtype=dtype)

    def __eq__(self, other):
        return np.array([r == other for r in self.rows], dtype=bool)

    def __ne__(self, other):
        return ~(self == other)

    __hash__ = None

    def tolist(self):
        return list(self.rows)

    to_list = tolist

    def append(self, other):
        more = other if isinstance(other, (list, tuple)) else [other]
        return Index(self.rows + [r for o in more for r in o.rows], self.names)

    def unique(self):
        return Index(dict.fromkeys(self.rows))

    @property
    def values(self):
        return np.array(self.rows, dtype=object)


class MultiIndex(Missing):
    @staticmethod
    def from_product(levels, names=None):
        rows = [()]
        for l in levels:
            rows = [r + (x,) for r in rows for x in l]
        return Index(rows, names)

    @staticmethod
    def from_arrays(levels, names=None):
        levels = [list(l) for l in levels]
        if len({len(l) for l in levels}) > 1:
            raise ValueError("all arrays must be same length")
        return Index(zip(*levels), names)

    @staticmethod
    def from_tuples(rows, names=None):
        return Index([tuple(r) for r in rows], names)


class Array(Missing, np.lib.mixins.NDArrayOperatorsMixin):
    def __array__(self, dtype=None, copy=None):
        return np.asarray(self.data, dtype=dtype)

    def __len__(self):
        return len(self.data)

    def __array_ufunc__(self, ufunc, method, *args, **kw):
        if method != "__call__":
            raise Unsupported(f"ufunc {method}")
        kw.pop("out", None)
        # Rows of one series against columns of a frame
        if any(isinstance(a, Series) for a in args) and any(isinstance(a, DataFrame) for a in args):
            raise Unsupported("frame and series")
        shape = [a for a in args if isinstance(a, Array)][0]
        return shape.like(getattr(ufunc, method)(*[a.data if isinstance(a, Array) else a for a in args], **kw))

    @property
    def values(self):
        return self.data

    def to_numpy(self, dtype=None):
        return np.asarray(self.data, dtype=dtype)

    @property
    def size(self):
        return self.data.size

    @property
    def ndim(self):
        return self.data.ndim

    @property
    def shape(self):
        return self.data.shape

    @property
    def empty(self):
        return self.data.size == 0

    def astype(self, t):
        return self.like(self.data.astype(t))

    def pow(self, x):
        return self ** x

    def div(self, x):
        return self / x

    divide = truediv = div

    def mul(self, x):
        return self * x

    multiply = mul

    def abs(self):
        return self.like(np.abs(self.data))

    def copy(self):
        return self.like(self.data.copy())

    def max(self, axis=None):
        return self.data.max(axis) if axis is None or self.data.ndim == 1 else Series(self.data.max(axis), self.index)

    def min(self, axis=None):
        return self.data.min(axis) if axis is None or self.data.ndim == 1 else Series(self.data.min(axis), self.index)


def label(columns):
    return Index(columns, None)


class Series(Array):
    def __init__(self, data, index=None):
        self.data = np.asarray(data)
        self.index = index if index is not None else Index(range(len(self.data)))

    def like(self, data):
        return Series(data, self.index)

    def __getitem__(self, k):
        at = [i for i, c in enumerate(self.index) if c == k or isinstance(c, tuple) and c[0] == k]
        if not at:
            raise KeyError(k)
        if self.index[at[0]] == k:
            return self.data[at[0]]
        return Series(self.data[at], Index([self.index[i][1] for i in at]))

    def __iter__(self):
        return iter(self.data)

    @property
    def iloc(self):
        return self.data

    def tolist(self):
        return self.data.tolist()

    to_list = tolist

    def sum(self, axis=None):
        return self.data.sum()

    def mean(self, axis=None):
        return self.data.mean()


class Group(Missing):
    def __init__(self, frame, keys, sort=True):
        self.frame, self.keys, self.sort = frame, keys, sort

    def __getitem__(self, k):
        return Group(self.frame[k], self.keys, self.sort)

    def head(self, n=1):
        count, at = {}, []
        for i, k in enumerate(self.keys):
            count[k] = count.get(k, 0) + 1
            if count[k] <= n:
                at.append(i)
        return self.frame.take(at)

    def nth(self, n):
        if n:
            raise Unsupported("nth")
        return self.head(1)

    @property
    def groups(self):
        return dict.fromkeys(self.keys)

    def _pick(self, which):
        seen = {}
        for i, k in enumerate(self.keys):
            if which or k not in seen:
                seen[k] = i
        order = sorted(seen) if self.sort else list(seen)
        f = self.frame
        return DataFrame(f.data[[seen[k] for k in order]], columns=f.columns.rows, index=Index(order))

    def first(self):
        return self._pick(0)

    def agg(self, how):
        if how not in ("first", "last"):
            raise Unsupported("agg")
        return getattr(self, how)()

    aggregate = agg

    def __len__(self):
        return len(set(self.keys))

    def last(self):
        return self._pick(1)

    def __iter__(self):
        for k in sorted(set(self.keys)) if self.sort else dict.fromkeys(self.keys):
            at = [i for i, x in enumerate(self.keys) if x == k]
            yield k, self.frame.take(at)


class ILoc:
    def __init__(self, frame):
        self.frame = frame

    def __getitem__(self, k):
        f = self.frame
        if isinstance(k, (int, np.integer)):
            return Series(f.data[k], f.columns)
        if isinstance(k, tuple):
            rows, cols = k
            at = np.arange(f.data.shape[1])[cols]
            if isinstance(cols, (int, np.integer)):
                col = Series(f.data[:, at], f.index)
                return col.data[rows] if isinstance(rows, (int, np.integer)) else Series(col.data[rows])
            return ILoc(DataFrame(f.data[:, at], [f.columns[i] for i in at], f.index))[rows]
        return f.take(np.arange(len(f))[k if isinstance(k, slice) else np.asarray(k)])


class Loc:
    def __init__(self, frame):
        self.frame = frame

    def __getitem__(self, k):
        f = self.frame
        if isinstance(k, tuple) and len(k) == 2 and isinstance(k[0], slice) and k[0] == slice(None):
            return f[k[1]]
        if isinstance(k, (np.ndarray, list)) and len(k) == len(f) and np.asarray(k).dtype == bool:
            return f.take(np.flatnonzero(k))
        if isinstance(k, str) and f.index.nlevels > 1:
            return f.xs(k)
        raise Unsupported("loc")


class DataFrame(Array):
    def __init__(self, data=None, columns=None, index=None, dtype=None):
        if isinstance(data, dict):
            columns, data = list(data), np.column_stack([np.asarray(v) for v in data.values()])
        if isinstance(data, DataFrame):
            columns, index, data = columns or data.columns.rows, index or data.index, data.data
        data = np.asarray(data if data is not None else [])
        if data.ndim == 1:
            data = data.reshape(len(data), 1 if len(data) else 0)
        self.data = data.astype(dtype) if dtype is not None else data
        n = self.data.shape[1]
        self.columns = columns if isinstance(columns, Index) else label(columns if columns is not None else range(n))
        if len(self.columns) != n:
            raise ValueError(f"{len(self.columns)} columns passed, passed data had {n} columns")
        self.index = index if index is not None else Index(range(len(self.data)))
        if not isinstance(self.index, Index):
            self.index = Index(self.index)
        if len(self.index) != len(self.data):
            raise ValueError("Length mismatch")

    def like(self, data):
        return DataFrame(data, self.columns.rows, self.index)

    def take(self, at):
        at = list(at)
        return DataFrame(self.data[at], self.columns.rows, Index([self.index[i] for i in at], self.index.names))

    @property
    def iloc(self):
        return ILoc(self)

    @property
    def loc(self):
        return Loc(self)

    def head(self, n=5):
        return self.iloc[:n]

    def tail(self, n=5):
        return self.iloc[-n:]

    def xs(self, k, level=0, axis=0):
        if axis in (1, "columns"):
            return self[k]
        level = self.index.names.index(level) if level in (self.index.names or []) else level
        at = [i for i, r in enumerate(self.index) if r[level] == k]
        if not at:
            raise KeyError(k)
        return DataFrame(self.data[at], self.columns.rows, Index([self.index[i] for i in at], self.index.names).droplevel(level))

    def sort_index(self, axis=0, level=None, ascending=True, sort_remaining=True, kind=None):
        if axis or not ascending:
            raise Unsupported("sort_index")
        if level is None:
            key = lambda i: self.index[i]
        else:
            level = self.index.names.index(level) if level in (self.index.names or []) else level
            key = lambda i: (self.index[i][level],) + ((self.index[i],) if sort_remaining else ())
        return self.take(sorted(range(len(self)), key=key))

    def drop_duplicates(self, subset=None, keep="first"):
        if keep != "first":
            raise Unsupported("drop_duplicates")
        f = self if subset is None else self[subset]
        seen, at = set(), []
        for i, r in enumerate(f.data.tolist()):
            if tuple(np.atleast_1d(r)) not in seen:
                seen.add(tuple(np.atleast_1d(r)))
                at.append(i)
        return self.take(at)

    def dropna(self):
        return self.take([i for i, r in enumerate(self.data) if not any(x != x for x in r)])

    def iterrows(self):
        for k, r in zip(self.index, self.data):
            yield k, Series(r, self.columns)

    def apply(self, f, axis=0, **kw):
        if axis in (1, "columns"):
            return Series([f(Series(r, self.columns), **kw) for r in self.data], self.index)
        got = [f(Series(self.data[:, i], self.index), **kw) for i in range(self.data.shape[1])]
        if got and all(np.ndim(g) == 1 for g in got):
            return self.like(np.column_stack([np.asarray(g) for g in got]))
        return Series(got, self.columns)

    def droplevel(self, level, axis=0):
        if axis not in (0, "index"):
            raise Unsupported("droplevel")
        return DataFrame(self.data, self.columns.rows, self.index.droplevel(level))

    def pipe(self, f, *args, **kw):
        return f(self, *args, **kw)

    def assign(self, **kw):
        f = self.copy()
        for k, v in kw.items():
            f[k] = v(f) if callable(v) else v
        return f

    def __iter__(self):
        return iter(self.columns)

    def itertuples(self, index=True, name=None):
        for k, r in zip(self.index, self.data):
            yield ((k,) if index else ()) + tuple(r)

    def reindex(self, *args, **kw):
        raise Unsupported("reindex")

    def set_index(self, index):
        if not isinstance(index, Index):
            raise Unsupported("set_index")
        return DataFrame(self.data, self.columns.rows, index)

    def __at(self, k):
        if isinstance(k, list):
            return [i for c in k for i in self.__at(c)]
        return [i for i, c in enumerate(self.columns) if c == k or isinstance(c, tuple) and c[0] == k]

    def __getitem__(self, k):
        if isinstance(k, Array):
            k = k.data
        if isinstance(k, slice):
            return self.iloc[k]
        if isinstance(k, np.ndarray) and k.dtype == bool:
            return self.take(np.flatnonzero(k))
        if isinstance(k, (list, np.ndarray, Index)):
            at = [i for c in k for i in self.__at(c)]
            if not at:
                raise KeyError(k)
            return DataFrame(self.data[:, at], [self.columns[i] for i in at], self.index)
        at = self.__at(k)
        if not at:
            raise KeyError(k)
        if len(at) == 1 and self.columns[at[0]] == k:
            return Series(self.data[:, at[0]], self.index)
        return DataFrame(self.data[:, at], [self.columns[i][1] for i in at], self.index)

    def __setitem__(self, k, v):
        if not isinstance(k, (str, int, tuple, list)):
            raise Unsupported("assignment")
        at = self.__at(k)
        v = v.data if isinstance(v, Array) else np.asarray(v)
        if at:
            self.data = self.data.copy()
            self.data[:, at] = v.reshape(len(self.data), len(at)) if v.ndim else v
        else:
            v = np.broadcast_to(v, len(self.data)).reshape(len(self.data), 1)
            self.data = np.hstack([self.data, v])
            self.columns = label(self.columns.rows + [k])

    def sum(self, axis=0):
        return Series(self.data.sum(axis), self.index if axis == 1 else self.columns)

    def groupby(self, by=None, level=None, sort=True):
        n = by if by is not None else level
        if not self.index.names or n not in self.index.names and not isinstance(n, int):
            raise Unsupported("groupby")
        return Group(self, self.index.get_level_values(n).rows, sort)


def concat(frames, axis=0, keys=None, names=None):
    if isinstance(frames, dict):
        keys, frames = list(frames), list(frames.values())
    frames = list(frames)
    if not frames:
        raise ValueError("No objects to concatenate")
    if axis in (1, "columns"):
        n = max(len(f) for f in frames)
        full = []
        for f in frames:
            if len(f) < n:
                f = DataFrame(np.vstack([f.data, np.full((n - len(f), f.data.shape[1]), np.nan)]), f.columns.rows)
            full.append(f)
        cols = [(k, c) for k, f in zip(keys, full) for c in f.columns] if keys else [c for f in full for c in f.columns]
        index = max(frames, key=len).index
        return DataFrame(np.hstack([f.data for f in full]), cols, index)
    if keys is not None:
        raise Unsupported("concat with keys along the rows")
    return DataFrame(
        np.vstack([f.data for f in frames]), frames[0].columns.rows,
        Index([r for f in frames for r in f.index], frames[0].index.names))


def to_numeric(x):
    if isinstance(x, Array):
        return x.astype(float)
    return np.asarray(x, dtype=float)


def arrays(call):
    """All numerical arrays given to one call."""
    for a in list(call.args) + list(call.kwargs.values()):
        if isinstance(a, (Array, np.ndarray, list)):
            try:
                yield np.asarray(a, dtype=float)
            except (ValueError, TypeError):
                pass


def serve(script, path, how):
    pd = types.ModuleType("pandas")
    for k, v in dict(DataFrame=DataFrame, Series=Series, MultiIndex=MultiIndex, concat=concat, Index=Index, to_numeric=to_numeric).items():
        setattr(pd, k, v)

    def other(name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported(f"pandas.{name}")

    pd.__getattr__ = other
    pv = mock.MagicMock(name="pyvista")
    mods = {"pandas": pd, "pyvista": pv, "pyvista.plotting": pv.plotting}
    out, answer = io.StringIO(), {}
    argv, stdin = sys.argv, os.dup(0)
    try:
        with mock.patch.dict(sys.modules, mods), contextlib.redirect_stdout(out):
            sys.argv = [script] + ([path] if how == "file" else [])
            if how == "stdin":
                fd = os.open(path, os.O_RDONLY)
                os.dup2(fd, 0)
                os.close(fd)
            exec(compiled(script), {"__name__": "__main__", "__file__": script})
        lines, scalars, labels, clims, radii, named = [], [], [], [], [], {}
        for c in pv.mock_calls:
            name = c[0].rsplit(".", 1)[-1]
            call = types.SimpleNamespace(args=c[1], kwargs=c[2])
            if name == "__setitem__" and isinstance(c[1][0], str):
                named[c[1][0]] = c[1][1]
            elif name == "add_mesh" and c[2].get("scalars", named or None) is not None:
                given = c[2].get("scalars")
                for a in named.values() if given is None else [named.get(given) if isinstance(given, str) else given]:
                    if a is None:
                        raise Unsupported(f"scalars {given}")
                    scalars.append(np.asarray(a, dtype=float).tolist())
                if c[2].get("clim") is not None:
                    clims.append(np.broadcast_to(np.asarray(c[2]["clim"], dtype=float) * ([1, 1] if np.ndim(c[2]["clim"]) else [-1, 1]), 2).tolist())
            elif name == "load_earth":
                r = c[2].get("radius", c[1][0] if c[1] else None)
                radii.append(float(r) if isinstance(r, (int, float, np.number)) else None)
            elif name == "add_point_labels":
                pts = np.asarray(c[1][0] if c[1] else c[2]["points"], dtype=float).tolist()
                names = [str(x) for x in (c[1][1] if len(c[1]) > 1 else c[2]["labels"])]
                labels.append([pts, names])
            else:
                lines += [a.tolist() for a in arrays(call) if a.ndim == 2 and a.shape[1] == 3]
        answer = dict(lines=lines, scalars=scalars, labels=labels, clims=clims, radii=radii)
    except Unsupported as e:
        answer = dict(unsupported=str(e))
    except SystemExit as e:
        answer = dict(error=f"exit {e.code}")
    except Exception as e:
        frames = traceback.extract_tb(e.__traceback__)
        inside = [f for f in frames[frames.index(next(f for f in frames if f.filename == script)):] if f.filename == __file__] \
            if any(f.filename == script for f in frames) else frames
        # What these classes refuse of themselves, pandas refuses as well, and
        # likewise texts which are no numbers. What else fails inside of them
        # may be their own fault.
        own = inside and not (inside[-1] is frames[-1] and (inside[-1].line or "").startswith("raise ")) \
            and not (inside[-1].name in ("astype", "to_numeric", "__init__") and isinstance(e, ValueError))
        what = f"{type(e).__name__}: {e}"
        answer = dict(unsupported=f"{what} in {inside[-1].name}") if own else dict(error=what)
    finally:
        sys.argv = argv
        os.dup2(stdin, 0)
        os.close(stdin)
    return answer


CODE = {}


def compiled(script):
    if script not in CODE:
        CODE[script] = compile(open(script, encoding="utf-8").read(), script, "exec")
    return CODE[script]


def main():
    script = sys.argv[1]
    # requests come on a descriptor of their own: the script reads descriptor 0
    requests = os.fdopen(os.dup(0), "r", encoding="utf-8")
    null = os.open(os.devnull, os.O_RDONLY)
    os.dup2(null, 0)
    replies = sys.stdout
    for line in requests:
        how, path = line.rstrip("\n").split(" ", 1)
        text = json.dumps(serve(script, path, how))
        replies.write(text.replace("NaN", "null").replace("Infinity", "null") + "\n")
        replies.flush()


if __name__ == "__main__":
    main()
